From 7bce778d5aaddb26dfe896c0176e760bd6801aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:05 +0000
Subject: [PATCH 001/126] fix: prod_pscale returns the summed log offset
 itself, not its logarithm

---
 probayes/pscales.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/probayes/pscales.py b/probayes/pscales.py
index a31b873..8aa5c8e 100644
--- a/probayes/pscales.py
+++ b/probayes/pscales.py
@@ -150,10 +150,7 @@ def prod_pscale(pscales, use_logp=None):
   if use_logp:
     if abs(rtype) < NEARLY_POSITIVE_ZERO:
       return COMPLEX_ZERO
-    elif rtype > 0:
-      return complex(np.log(rtype), 0.)
-    else:
-      return complex(np.log(-rtype), np.pi)
+    return complex(rtype, 0.)
   return rtype
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 68bb708f1dc8771db678f6a185ca9d1c7d07f32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:05 +0000
Subject: [PATCH 002/126] fix: prod_rule rescales the product to the requested
 pscale

---
 probayes/pscales.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/probayes/pscales.py b/probayes/pscales.py
index 8aa5c8e..b55514f 100644
--- a/probayes/pscales.py
+++ b/probayes/pscales.py
@@ -207,8 +207,7 @@ def prod_rule(*args, **kwds):
       if p_log:
         probs[i] = exp_logp(probs[i])
   prob = _apply_prod(probs)
-  if use_logp != iscomplex(pscale):
-    prob = rescale(prob, ppscale, pscales)
+  prob = rescale(prob, ppscale, pscale)
 
   return prob, pscale
 
-- 
2.43.0


From 0d08c2dc768bbfe0661618a8e977da91e384c4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:05 +0000
Subject: [PATCH 003/126] fix: div_prob honours a requested log pscale of zero
 offset

---
 probayes/pscales.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pscales.py b/probayes/pscales.py
index b55514f..cc9f4c5 100644
--- a/probayes/pscales.py
+++ b/probayes/pscales.py
@@ -225,7 +225,7 @@ def div_prob(dividend, divisor, *args, pscale=None):
     assert len(args) == 2, "Both pscales must be specified if at all"
     pscales[0] = eval_pscale(args[0])
     pscales[1] = eval_pscale(args[1])
-    pscale = pscale or pscales[0]
+    pscale = pscales[0] if pscale is None else pscale
   dividend = rescale(dividend, pscales[0], None)
   divisor = rescale(divisor, pscales[1], None)
   quotient = dividend / np.maximum(NEARLY_POSITIVE_ZERO, divisor)
-- 
2.43.0


From 40d75b05c5c3fbf2d886161db66de2408b0a4ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:05 +0000
Subject: [PATCH 004/126] fix: eval_pscale keeps a unit complex log offset
 logarithmic

---
 probayes/pscales.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pscales.py b/probayes/pscales.py
index cc9f4c5..75dd3ef 100644
--- a/probayes/pscales.py
+++ b/probayes/pscales.py
@@ -26,7 +26,7 @@ def eval_pscale(pscale=None):
   """
   if pscale is None:
     return 1.
-  if pscale == 1:
+  if pscale == 1 and not iscomplex(pscale):
     return 1.
   if pscale in ['log', 'ln', 0]:
     return COMPLEX_ZERO
-- 
2.43.0


From edae28abe408499014ca69bd5457037c887f26fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:38 +0000
Subject: [PATCH 005/126] fix: prod_rule only fast-tracks factors already in
 the product's scale

---
 probayes/pscales.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pscales.py b/probayes/pscales.py
index 75dd3ef..e758ab2 100644
--- a/probayes/pscales.py
+++ b/probayes/pscales.py
@@ -191,7 +191,7 @@ def prod_rule(*args, **kwds):
   if use_logp != iscomplex(ppscale):
     ppscale = complex(np.log(ppscale), 0.) if use_logp else float(np.exp(ppscale))
   elif use_logp == iscomplex(pscale) and ppscale == pscale and \
-      len(set([iscomplex(_pscale) for _pscale in pscales])) == 1:
+      all([iscomplex(_pscale) == use_logp for _pscale in pscales]):
     prob = _apply_prod(list(args))
     return prob, pscale
 
-- 
2.43.0


From 58c14e733ae73bf1dc9c000bac579fe02d45c1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:13 +0000
Subject: [PATCH 006/126] fix: marginalise renumbers dimensions by axis, not by
 order of keys

---
 probayes/pd.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 5121387..a0eef8d 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -145,18 +145,16 @@ class PD (Distribution):
     cond = collections.OrderedDict(self._cond)
     vals = collections.OrderedDict()
     dims = collections.OrderedDict()
-    dim_delta = 0
-    sum_axes = set()
+    sum_axes = {self._dims[key] for key in keys if self._dims[key] is not None}
     for i, key in enumerate(self._keylist):
       if key in keys:
         assert not self._aresingleton[i], \
             "Cannot marginalise along scalar for key {}".format(key)
-        sum_axes.add(self._dims[key])
         marg.pop(key)
-        dim_delta += 1
       else:
         if not self._aresingleton[i]:
-          dims.update({key: self._dims[key] - dim_delta})
+          dim = self._dims[key]
+          dims.update({key: dim - sum([axis < dim for axis in sum_axes])})
         vals.update({key:self[key]})
     name = margcond_str(marg, cond)
     prob = rescale(self._prob, self._pscale, 1.)
-- 
2.43.0


From 55d5e731f2adf1b13999ec7f33e6477b767158e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:00 +0000
Subject: [PATCH 007/126] fix: conditionalise orders dimensions consistently
 for any position of its keys

---
 probayes/pd.py | 42 ++++++++++++------------------------------
 1 file changed, 12 insertions(+), 30 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index a0eef8d..6b73a61 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -222,7 +222,6 @@ class PD (Distribution):
     marg = collections.OrderedDict(self._marg)
     cond = collections.OrderedDict(self._cond)
     normalise = False
-    delta = 0
     marg_scalars = set()
     for i, key in enumerate(self._keylist):
       if key in keys:
@@ -231,37 +230,20 @@ class PD (Distribution):
         dims.update({key: None})
         if key in keys:
           normalise = True
-      elif key in self._marg.keys():
-        if self._aresingleton[i]:
-          marg_scalars.add(key)
-        if key in keys:
-          delta += 1 # Don't add to dim just yet
-        else:
-          dim = self._dims[key]
-          dims.update({key: dim})
-      else:
-        dim = self.dims[key] - delta
-        dims.update({key: dim})
-
-    # Reduce remaining marginals to lowest dimension
-    dim_val = [val for val in dims.values() if val is not None]
-    dim_max = 0
-    if len(dim_val):
-      dim_min = min(dim_val)
-      for key in dims.keys():
-        if dims[key] is not None:
-          dim = dims[key]-dim_min
-          dims.update({key: dim})
-          dim_max = max(dim_max, dim)
-    dim_min = self.ndim
-    for key in keys:
-      dim = self.dims[key]
-      if dim is not None:
-        dim_min = min(dim_min, dim)
-    for key in keys:
+      elif key not in keys:
+        dims.update({key: self._dims[key]})
+
+    # Conditionalised dimensions follow all remaining dimensions in order
+    rem_dims = {dim for dim in dims.values() if dim is not None}
+    key_dims = {self._dims[key] for key in keys if self._dims[key] is not None}
+    assert not rem_dims.intersection(key_dims), \
+        "Cannot conditionalise {} along dimensions shared with other keys".\
+        format(keys)
+    new_dim = {dim: i for i, dim in enumerate(sorted(rem_dims) + sorted(key_dims))}
+    for key in self._keylist:
       dim = self._dims[key]
       if dim is not None:
-        dims.update({key: dim-dim_min+dim_max+1})
+        dims.update({key: new_dim[dim]})
     if normalise:
       assert marg_scalars.issubset(set(keys)), \
         "If conditionalising for key {}".format(key) + "," + \
-- 
2.43.0


From da9d83fae2e4962166ecb4ee0ec22dbfbaa893bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:00 +0000
Subject: [PATCH 008/126] fix: division aligns divisor axes with the dividend
 by variable

---
 probayes/pd.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 6b73a61..c090833 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -574,12 +574,9 @@ class PD (Distribution):
     marg = collections.OrderedDict(self._marg)
     cond = collections.OrderedDict(self._cond)
     vals = collections.OrderedDict(self._cond)
-    re_shape = np.ones(self._ndim, dtype=int)
     for i, key in enumerate(self._keylist):
       if key in keys:
         cond.update({key:marg.pop(key)})
-        if not self._aresingleton[i] and not divs:
-          re_shape[self.dims[key]] = other[key].size
       else:
         vals.update({key:self[key]})
 
@@ -588,9 +585,22 @@ class PD (Distribution):
       if key in keys:
         vals.update({key:self[key]})
 
+    # Align divisor axes with dividend dimensions
+    divp = other.prob
+    if not divs:
+      axes = {dim: self._dims[key] for key, dim in other.dims.items() \
+              if dim is not None}
+      assert None not in axes.values(), \
+          "Divisor dimensions {} incommensurate with {}".\
+          format(other.dims, self._dims)
+      order = sorted(axes, key=axes.get)
+      re_shape = np.ones(self._ndim, dtype=int)
+      for axis in order:
+        re_shape[axes[axis]] = other.shape[axis]
+      divp = np.transpose(divp, order).reshape(re_shape)
+
     # Evaluate probabilities
     name = margcond_str(marg, cond)
-    divp = other.prob if divs else other.prob.reshape(re_shape)
     prob = div_prob(self._prob, divp, self._pscale, other.pscale)
     return PD(name, vals, dims=self._dims, prob=prob, pscale=self._pscale)
 
-- 
2.43.0


From 4910a79b91eef5e68fd93bb39abdc477810dbb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:28 +0000
Subject: [PATCH 009/126] fix: product honours a requested log pscale of zero
 offset

---
 probayes/pd_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index 0106cd1..b851e5d 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -7,7 +7,7 @@ import functools
 import numpy as np
 import h5py
 from probayes.vtypes import isscalar, issingleton, isunitsetint
-from probayes.pscales import prod_pscale, prod_rule, iscomplex
+from probayes.pscales import eval_pscale, prod_pscale, prod_rule, iscomplex
 
 #-------------------------------------------------------------------------------
 def str2key(string):
@@ -95,7 +95,8 @@ def product(*args, **kwds):
     return None
   kwds = dict(kwds)
   pscales = [arg.pscale for arg in args]
-  pscale = kwds.get('pscale', None) or prod_pscale(pscales)
+  pscale = kwds.get('pscale', None)
+  pscale = prod_pscale(pscales) if pscale is None else eval_pscale(pscale)
   aresingleton = [arg.issingleton for arg in args]
   maybe_fasttrack = all(aresingleton) and \
                     np.all(pscale == np.array(pscales)) and \
-- 
2.43.0


From e8a4be0fef70cd7b4ac82ad0c8ff043b83cdb05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:28 +0000
Subject: [PATCH 010/126] fix: product counts conditionals common to its
 factors only once

---
 probayes/pd_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index b851e5d..5a96fdd 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -201,6 +201,7 @@ def product(*args, **kwds):
                          if cond_name in prod_marg]
   prod_cond = [cond_name for cond_name in flat_cond_names \
                          if cond_name not in cond2marg]
+  prod_cond = list(collections.OrderedDict.fromkeys(prod_cond))
   cond2marg_set = set(cond2marg)
 
   # Check conditionals compatible
-- 
2.43.0


From 77ff71e54e599d5820e63234f5342fb14fbdc83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:28 +0000
Subject: [PATCH 011/126] fix: Distribution.singleton looks up existing
 attributes

---
 probayes/distribution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/probayes/distribution.py b/probayes/distribution.py
index 990968c..37974c3 100644
--- a/probayes/distribution.py
+++ b/probayes/distribution.py
@@ -202,10 +202,10 @@ class Distribution (NamedDict):
     if key is None:
       return self._issingleton
     if isinstance(key, str):
-      if key not in self._keys:
+      if key not in self._keylist:
         return None
-      key = self._keys.index(key)
-    return self._issingleton[key]
+      key = self._keylist.index(key)
+    return self._aresingleton[key]
 
 #-------------------------------------------------------------------------------
   def lookup(self, keys, as_dist=False):
-- 
2.43.0


From d7b25d8dc0a240cbfac2163db76b13150b271edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:28 +0000
Subject: [PATCH 012/126] fix: summate concatenates arrays along their one
 differing dimension

---
 probayes/pd_utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index 5a96fdd..df94fff 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -385,7 +385,6 @@ def summate(*args):
     return PD(sum_name, sum_vals, dims=sum_dims, prob=sum_prob, pscale=pscale)
 
   # 2. all identical but in one dimension: concatenate in that dimension
-  # TODO: fix the remaining code of this function below
   sum_vals = collections.OrderedDict(args[0])
   sum_dims = [None] * (len(args) - 1)
   for i, arg in enumerate(args):
@@ -400,15 +399,17 @@ def summate(*args):
           if np.allclose(key_vals, sum_vals[key]):
             continue
         sum_dims[i-1] = arg.dims[key]
-  assert len(set(sum_dims)) > 1, "Cannot find unique concatenation axis"
+  assert len(set(sum_dims)) == 1 and sum_dims[0] is not None, \
+      "Cannot find unique concatenation axis"
   sum_dim = sum_dims[0]
   sum_dims = args[0].dims
-  key = marg_keys[sum_dim]
+  cat_keys = [key for key in sum_keys if sum_dims[key] == sum_dim]
   sum_prob = np.copy(probs[0])
   for i, val in enumerate(vals):
     if i == 0:
       continue
-    sum_vals[key] = np.concatenate([sum_vals[key], val[key]], axis=sum_dim)
+    for key in cat_keys:
+      sum_vals[key] = np.concatenate([sum_vals[key], val[key]], axis=sum_dim)
     sum_prob = np.concatenate([sum_prob, probs[i]], axis=sum_dim)
   return PD(sum_name, sum_vals, dims=sum_dims, prob=sum_prob, pscale=pscale)
 
-- 
2.43.0


From 811f809a67d20be135f2ae1a541a013f5dabad79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:32 +0000
Subject: [PATCH 013/126] fix: PD.redim looks up existing attribute and moves
 each axis once

---
 probayes/pd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index c090833..b5283d5 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -289,7 +289,7 @@ class PD (Distribution):
       old_dims = []
       new_dims = []
       for i, key in enumerate(self._keylist):
-        if not self._aresingletons[i]:
+        if not self._aresingleton[i] and self._dims[key] not in old_dims:
           old_dims.append(self._dims[key])
           new_dims.append(dims[key])
       prob = np.moveaxis(prob, old_dims, new_dims)
-- 
2.43.0


From d67bc4168559a8ee771f9a3a63443913f8f52986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:32 +0000
Subject: [PATCH 014/126] fix: PD.prod renumbers dimensions by axis, not by
 order of keys

---
 probayes/pd.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index b5283d5..d9c5a9a 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -321,20 +321,21 @@ class PD (Distribution):
     cond = collections.OrderedDict(self._cond)
     vals = collections.OrderedDict()
     dims = collections.OrderedDict()
-    dim_delta = 0
     prod_axes = []
+    for i, key in enumerate(self._keylist):
+      if key in keys and not self._aresingleton[i]:
+        if self._dims[key] not in prod_axes:
+          prod_axes.append(self._dims[key])
     for i, key in enumerate(self._keylist):
       if key in keys:
         assert not self._aresingleton[i], \
             "Cannot apply product along scalar for key {}".format(key)
-        if self._dims[key] not in prod_axes:
-          prod_axes.append(self.dims[key])
-          dim_delta += 1
         marg.update({key: key+"={}"})
         vals.update({key: {self[key].size}})
       else:
         if not self._aresingleton[i]:
-          dims.update({key: self._dims[key] - dim_delta})
+          dim = self._dims[key]
+          dims.update({key: dim - sum([axis < dim for axis in prod_axes])})
         vals.update({key:self[key]})
     name = margcond_str(marg, cond)
     pscale = self._pscale
-- 
2.43.0


From a1abf127df618b6f5650cd983d9bdc2b950a9ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:32 +0000
Subject: [PATCH 015/126] fix: PD.prod scales by one factor per multiplied
 probability

---
 probayes/pd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index d9c5a9a..38bb0ce 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -343,9 +343,9 @@ class PD (Distribution):
     if pscale_product not in [0., 1.]:
       pscale_scaling = np.prod(np.array(self.shape)[prod_axes])
       if iscomplex(pscale):
-        pscale_product += pscale*pscale_scaling 
+        pscale_product = pscale*pscale_scaling 
       else:
-        pscale_product *= pscale**pscale_scaling 
+        pscale_product = pscale**pscale_scaling 
     prob = np.sum(self.prob, axis=tuple(prod_axes)) if iscomplex(pscale) \
            else np.prod(self.prob, axis=tuple(prod_axes))
     return PD(name, vals, dims=dims, prob=prob, pscale=pscale_product)
-- 
2.43.0


From 80bdb274d8915c9125b602d32a7221b136176614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:32 +0000
Subject: [PATCH 016/126] fix: PD.remarginalise keeps conditionals apart from
 marginals in name

---
 probayes/pd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 38bb0ce..ab8fd80 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -668,7 +668,7 @@ class PD (Distribution):
           marg_str[-1] = key + "=[]"
     rem_name = ','.join(marg_str)
     if '|' in self._name:
-      rem_name += self._name.split('|')[1]
+      rem_name += '|' + self._name.split('|')[1]
     cond_keys = list(self._cond.keys())
     if cond_keys:
       for key in cond_keys:
-- 
2.43.0


From 841082b5ff99f38ed410edf72304570914939274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:32 +0000
Subject: [PATCH 017/126] fix: PD call slices each variable along its own axis

---
 probayes/pd.py | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index ab8fd80..d5e2def 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -493,13 +493,13 @@ class PD (Distribution):
     keys = values.keys()
     keyset = set(values.keys())
     assert len(keyset.union(self._keyset)) == len(self._keyset),\
-        "Unrecognised key among values keys: {}".format(keys())
+        "Unrecognised key among values keys: {}".format(keys)
     marg = collections.OrderedDict(self._marg)
     cond = collections.OrderedDict(self._cond)
     dims = collections.OrderedDict(self._dims)
     vals = collections.OrderedDict(self)
     slices = [slice(None) for _ in range(self.ndim)]
-    dim_delta = 0
+    dropped = set()
     for i, key in enumerate(self._keylist):
       check_dims = False
       if not self._aresingleton[i]:
@@ -514,31 +514,43 @@ class PD (Distribution):
           if n_matches == 0:
             slices[dim] = slice(0, 0)
             vals[key] = np.array([])
+            check_dims = True
           elif n_matches == 1 and not keepdims:
-            dim_delta += 1
-            slices[dim] = int(np.nonzero(match)[0])
+            dropped.add(dim)
+            slices[dim] = int(np.nonzero(match)[0][0])
             vals[key] = values[key]
             dims[key] = None
+            check_dims = True
           else:
             post_eq = '[]'
             slices[dim] = np.nonzero(match)[0]
-            vals[key] = self[key][slices[dim]]
+            vals[key] = np.ravel(self[key])[slices[dim]]
             check_dims = True
           update_keys = [key]
           if check_dims:
             for k, v in self.items():
               if dim == self._dims[k] and k not in keyset:
-                vals[k] = self[k][slices[dim]]
-                update_keys.append(k)
+                vals[k] = np.ravel(v)[slices[dim]]
+                if dim in dropped:
+                  dims[k] = None
+                else:
+                  update_keys.append(k)
           for update_key in update_keys:
-            if key in marg.keys():
-              marg[key] = "{}={}".format(key, post_eq)
-            elif key in cond.keys():
-              cond[key] = "{}={}".format(key, post_eq)
-        elif dim_delta:
-          dims[key] = dims[key] - dim_delta
+            if update_key != key:
+              post_eq = '[]'
+            if update_key in marg.keys():
+              marg[update_key] = "{}={}".format(update_key, post_eq)
+            elif update_key in cond.keys():
+              cond[update_key] = "{}={}".format(update_key, post_eq)
+    for key, dim in dims.items():
+      if dim is not None:
+        dims[key] = dim - sum([axis < dim for axis in dropped])
     name = margcond_str(marg, cond)
-    prob = self._prob[tuple(slices)]
+
+    # Slice one axis at a time so that index arrays do not interact
+    prob = self._prob
+    for dim in reversed(range(self.ndim)):
+      prob = prob[tuple([slice(None)] * dim + [slices[dim]])]
     return PD(name, vals, dims=dims, prob=prob, pscale=self._pscale)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 9aad850292709da27c3d74f9323e29a9e02cd23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:32 +0000
Subject: [PATCH 018/126] fix: str_margcond reads the name within parentheses

---
 probayes/pd_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index df94fff..3ea18ac 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -31,10 +31,10 @@ def str_margcond(name=None):
   if lt_paren >= 0 or rt_paren >= 0:
     assert lt_paren >= 0 and rt_paren > lt_paren, \
       "Unmatched parenthesis in name"
-    marg_str = marg_str[lt_paren:1:rt_paren]
+    marg_str = marg_str[lt_paren+1:rt_paren]
   cond_str = ''
   if '|' in marg_str:
-    split_str = name.split('|')
+    split_str = marg_str.split('|')
     assert len(split_str) == 2, "Ambiguous name: {}".format(name)
     marg_str, cond_str = split_str
   marg_strs = []
-- 
2.43.0


From 19395e87e9de3c7e36f0ebcc31f70802f2f91138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:12 +0000
Subject: [PATCH 019/126] fix: Distribution without dims gives every value
 array all dimensions

---
 probayes/distribution.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/probayes/distribution.py b/probayes/distribution.py
index 37974c3..6c0da9e 100644
--- a/probayes/distribution.py
+++ b/probayes/distribution.py
@@ -140,6 +140,8 @@ class Distribution (NamedDict):
     self._aresingleton = [issingleton(val) for val in self.values()]
     self._issingleton = np.all(self._aresingleton)
     self._ndim = 0 
+    if eval_dims:
+      self._ndim = self._aresingleton.count(False)
     for dim in self._dims.values():
       if dim is not None:
         self._ndim = max(self._ndim, dim+1)
@@ -174,10 +176,6 @@ class Distribution (NamedDict):
             "shape {} for key {}".format(values.shape, key)
         if eval_dims:
           self._dims.update({key: nonsingleton_count})
-          if len(self._shape) == nonsingleton_count:
-            self._shape.append(None)
-            self._ndim = len(self._shape)
-            ones_ndim = np.ones(self._ndim, dtype=int)
         else:
           assert key in self._dims, "Missing key {} in dims specification {}".\
               format(key, self._dims)
-- 
2.43.0


From 7386904d96fa0ed986a412ec7cd34df321285358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:26 +0000
Subject: [PATCH 020/126] fix: Variable.lhv returns the log hypervolume, not
 the length

---
 probayes/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 9f56198..66edbb8 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -299,7 +299,7 @@ class Variable (Icon):
   @property
   def lhv(self):
     """ Log hypervolume (=log(length)) of the variable """
-    return self._length
+    return self._lhv
 
   def __len__(self):
     """ Length of the variable according to its (transformed) limits """
-- 
2.43.0


From 7fc6b6de3f6e965d81a7738f7cdfab90e0a5266e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:26 +0000
Subject: [PATCH 021/126] fix: Variable.vset accepts a scalar by inspecting the
 value being set

---
 probayes/variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 66edbb8..fe00aeb 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -174,8 +174,8 @@ class Variable (Icon):
       vset = DEFAULT_VSETS[self._vtype]
     elif isinstance(vset, (set, range)):
       vset = sorted(vset)
-    elif np.isscalar(self._vset):
-      vset = [self._vset]
+    elif np.isscalar(vset):
+      vset = [vset]
     elif isinstance(vset, tuple):
       assert len(vset) == 2, \
           "Tuple vsets contain pairs of values, not {}".format(vset)
-- 
2.43.0


From 461f5396ba9d6f2a246a0b91d7fad6e8247213c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:26 +0000
Subject: [PATCH 022/126] fix: Variable.vset copies the list it is given rather
 than altering it

---
 probayes/variable.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/probayes/variable.py b/probayes/variable.py
index fe00aeb..389de35 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -188,6 +188,7 @@ class Variable (Icon):
           "Unrecognised vset specification: {}".format(vset)
 
     # At this point, vset can only be a list, but may contain tuples
+    vset = list(vset)
     vtype = self._vtype
     for i, value in enumerate(vset):
       if isinstance(value, tuple):
-- 
2.43.0


From 7146466fccb5a2bca9ddfa22a3caad132f1c884d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:26 +0000
Subject: [PATCH 023/126] fix: scalar bounded deltas cannot land on an excluded
 half-open end

---
 probayes/variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 389de35..3230c8d 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -716,12 +716,12 @@ class Variable (Icon):
         if not self._inside(vals):
           vals = values
       elif maybe_bounce[0]:
-        if vals < self._vlims[0]:
+        if vals <= self._vlims[0]:
           vals = values
         else:
           vals = np.minimum(self._vlims[1], vals)
       else:
-        if vals > self._vlims[1]:
+        if vals >= self._vlims[1]:
           vals = values
         else:
           vals = np.maximum(self._vlims[0], vals)
-- 
2.43.0


From f7612515159625a6f3c7c267ffcae2553c6c9305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:26 +0000
Subject: [PATCH 024/126] fix: callable Variable deltas can be evaluated and
 applied

---
 probayes/variable.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 3230c8d..512d85c 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -400,6 +400,8 @@ class Variable (Icon):
     if self._delta is None:
       return
     elif callable(self._delta):
+      kwds = {key: val for key, val in kwds.items() \
+              if key not in ('scale', 'bound')}
       self._delta = Expression(self._delta, *args, **kwds)
       return
 
@@ -611,7 +613,7 @@ class Variable (Icon):
     if delta is None:
       return None
     if isinstance(delta, Expression):
-      if delta.ret_callable():
+      if delta.callable:
         return delta
       delta = delta()
     if isinstance(delta, self._Delta):
@@ -663,7 +665,7 @@ class Variable (Icon):
     # Call eval_delta() if values is a list and return values if delta is None
     delta = delta or self._delta
     if isinstance(delta, Expression):
-      if delta.ret_callable():
+      if delta.callable:
         return delta(values)
       delta = delta()
     elif self._vtype not in VTYPES[bool]:
-- 
2.43.0


From 03174c8e11daabdd85c3b43fa7acef3a9e47da86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:26 +0000
Subject: [PATCH 025/126] fix: integer list deltas are sampled from both ends
 of [-delta, delta]

---
 probayes/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 512d85c..ddb00de 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -631,7 +631,7 @@ class Variable (Icon):
       if self._vtype in VTYPES[bool]:
         pass
       elif self._vtype in VTYPES[int]:
-        delta = np.random.randint(-delta, delta)
+        delta = np.random.randint(-delta, delta + 1)
       else:
         delta = np.random.uniform(-delta, delta)
     assert isscalar(delta), "Unrecognised delta type: {}".format(delta)
-- 
2.43.0


From a0b5eb48d7c4de367035177a82b0660e1b2388bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:26 +0000
Subject: [PATCH 026/126] fix: Variable.dexpr getter returns the deterministic
 expression, not the name

---
 probayes/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index ddb00de..6d9f99b 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -761,7 +761,7 @@ class Variable (Icon):
     """ Sets iconic deterministic expression, substituting for icon in [:] """
     return self._dexpr
 
-  @name.setter
+  @dexpr.setter
   def dexpr(self, dexpr=None):
     self._dexpr = None if self._is_stochastic else dexpr
 
-- 
2.43.0


From bba4e52488bea81040ff801ed5e065ffce7353f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:26 +0000
Subject: [PATCH 027/126] fix: clearing Variable.ufun restores the
 untransformed limits

---
 probayes/variable.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/probayes/variable.py b/probayes/variable.py
index 6d9f99b..5682faa 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -479,6 +479,8 @@ class Variable (Icon):
     """
     self._ufun = ufun
     if self._ufun is None:
+      self.__no_ucov = None
+      self._eval_ulims()
       return
     self.__no_ucov = False if 'no_ucov' not in kwds else kwds.pop('no_ucov')
 
-- 
2.43.0


From ee6caeeae144415b7b2a5845227a485b3263a680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:26 +0000
Subject: [PATCH 028/126] fix: variables() passes vset and vtype in the order
 Variable expects

---
 probayes/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 5682faa..5a2cb1b 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -793,7 +793,7 @@ class Variable (Icon):
 def variables(names, vtype=None, vset=None, *args, **kwds):
   if isinstance(names, str):
     names = names.split(',')
-  varlist = [Variable(name, vtype, vset, *args, **kwds) for name in names]
+  varlist = [Variable(name, vset, vtype, *args, **kwds) for name in names]
   return tuple(varlist)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From d2f6d641f480c2a22e506efee45a9a4fc581dee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:26 +0000
Subject: [PATCH 029/126] fix: Variable.inside does not report duplicated
 values as members

---
 probayes/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 5a2cb1b..48bdacc 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -326,7 +326,7 @@ class Variable (Icon):
 
     # Non-floats do not support transformation
     if self._vtype not in VTYPES[float]:
-      self._inside = lambda x: np.isin(x, self._vset, assume_unique=True)
+      self._inside = lambda x: np.isin(x, self._vset)
       self._ulims = self._vlims
       self._length = 2 if self._vtype in VTYPES[bool] else len(self._vset)
       self._lhv = log_prob(self._length)
-- 
2.43.0


From 4da05bfe9b01f017f6a94c39dc72e83c3bd273bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:26 +0000
Subject: [PATCH 030/126] fix: an explicit zero Variable delta is not replaced
 by the default delta

---
 probayes/variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 48bdacc..18cf8e6 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -611,7 +611,7 @@ class Variable (Icon):
 
     If delta is not entered, then the default set by Variable.set_delta() is used.
     """
-    delta = delta or self._delta
+    delta = self._delta if delta is None else delta
     if delta is None:
       return None
     if isinstance(delta, Expression):
@@ -665,7 +665,7 @@ class Variable (Icon):
       values = values[self.name] 
 
     # Call eval_delta() if values is a list and return values if delta is None
-    delta = delta or self._delta
+    delta = self._delta if delta is None else delta
     if isinstance(delta, Expression):
       if delta.callable:
         return delta(values)
-- 
2.43.0


From 09e6581f965411fb0b4b7b01d046585e25be06bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:26 +0000
Subject: [PATCH 031/126] fix: setting Variable.vtype re-evaluates an existing
 vset

---
 probayes/variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 18cf8e6..e86a971 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -238,8 +238,8 @@ class Variable (Icon):
         self._vtype = DEFAULT_VTYPE
     else:
       self._vtype = eval_vtype(vtype)
-    if self._vset is None:
-      self.vset = DEFAULT_VSETS[self._vtype]
+    self.vset = self._vset if self._vset is not None else \
+                DEFAULT_VSETS[self._vtype]
 
 #-------------------------------------------------------------------------------
   @property
-- 
2.43.0


From 0ff573077d31cd49ca6e867042a3c1bb235737ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:22 +0000
Subject: [PATCH 032/126] fix: Variable accepts a NumPy array or zero as its
 variable set

---
 probayes/variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index e86a971..5082eb2 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -109,10 +109,10 @@ class Variable (Icon):
       vtype, vset = vset, vtype
 
     # If vtype and/or vset is/are specified, set it/them
-    if vtype or vset:
+    if vtype or vset is not None:
       if vtype:
         self.vtype = vtype
-      if vset:
+      if vset is not None:
         self.vset = vset
     else:
       self.vtype = vtype
-- 
2.43.0


From fa3448e7f76a00122c5d8899cd946d32bf980d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:22 +0000
Subject: [PATCH 033/126] fix: RV passes vset and vtype in the order Variable
 expects

---
 probayes/rv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 96ad54c..12828a5 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -71,7 +71,7 @@ class RV (Variable, Prob):
     :param **kwds: optional keywords to pass if prob is callable.
     """
 
-    Variable.__init__(self, name, vtype, vset)
+    Variable.__init__(self, name, vset, vtype)
     Prob.__init__(self, prob, *args, **kwds)
     self._tran, self._tfun = None, None
 
-- 
2.43.0


From 3e0860696b6a9cceb04866b43d551b8f56e4ca24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:22 +0000
Subject: [PATCH 034/126] fix: RVs() passes vset and vtype in the order RV
 expects

---
 probayes/rv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 12828a5..e9f25a3 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -584,7 +584,7 @@ class RV (Variable, Prob):
 def RVs(names, vtype=None, vset=None, prob=None, *args, **kwds):
   if isinstance(names, str):
     names = names.split(',')
-  varlist = [RV(name, vtype, vset, prob, *args, **kwds) for name in names]
+  varlist = [RV(name, vset, vtype, prob, *args, **kwds) for name in names]
   return tuple(varlist)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From a9efd86347e0d7dc458005c6a88268a2fb6fc625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:23 +0000
Subject: [PATCH 035/126] fix: calling a multiple Expression is refused with
 its keys

---
 probayes/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index 0000d44..897dd0b 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -461,7 +461,7 @@ class Expression:
    args and kwds. """
    assert not self._ismulti, \
        "Cannot call with multiple expression, use Expression[{}]()".format(
-           list(self._keys()))
+           list(self._keys))
    return self._partials[None](*args, **kwds)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From febded8725bf04e4e4f5752af0664b579fc92fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:23 +0000
Subject: [PATCH 036/126] fix: Expression reports an uninterpretable mapping
 value

---
 probayes/expression.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index 897dd0b..33a5ada 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -290,7 +290,8 @@ class Expression:
       elif ind is None:
         pass
       elif not isinstance(ind, str):
-        raise TypeError("Cannot interpret index specification value: {}".ind)
+        raise TypeError("Cannot interpret index specification value: {}".format(
+            ind))
     indset = set(inds)
     if len(indset):
       assert indset == set(range(min(indset), max(indset)+1)), \
-- 
2.43.0


From 011351e38adccb4a698f893dbecc5681e1a3cd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:23 +0000
Subject: [PATCH 037/126] fix: Func reports an uninterpretable mapping value

---
 probayes/func.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/func.py b/probayes/func.py
index b299ede..d6afe09 100644
--- a/probayes/func.py
+++ b/probayes/func.py
@@ -179,7 +179,8 @@ class Func:
       elif ind is None:
         pass
       elif not isinstance(ind, str):
-        raise TypeError("Cannot interpret index specification value: {}".ind)
+        raise TypeError("Cannot interpret index specification value: {}".format(
+            ind))
     indset = set(inds)
     if len(indset):
       assert indset == set(range(min(indset), max(indset)+1)), \
-- 
2.43.0


From f661e5c540e63519f8ed2efc90e53dee0e0acb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:23 +0000
Subject: [PATCH 038/126] fix: resetting an Expression clears its inverse
 derivative

---
 probayes/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index 33a5ada..467df46 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -166,7 +166,7 @@ class Expression:
     self.__delta = None
     self.__inverse = None
     self.__invexpr = None
-    self.__invderi = None
+    self.__derinv = None
     self.__invertible = False if 'invertible' not in kwds else \
                         self._kwds.pop('invertible')
     self._exprs = collections.OrderedDict()
-- 
2.43.0


From fcb96ccbab3807b40e71b1b1eae61aa716bdc94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:23 +0000
Subject: [PATCH 039/126] fix: Expression length does not count the alias of
 the last expression

---
 probayes/expression.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/probayes/expression.py b/probayes/expression.py
index 467df46..e16d598 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -487,6 +487,8 @@ class Expression:
     """ Returns the number of expressions in the tuple set by set_expr() """
     if not self._ismulti:
       return None
+    if isinstance(self._expr, (tuple, dict)):
+      return len(self._expr)
     return len(self._partials)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 39bb4f28939458042a614953b38d81ecf4a8e177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:23 +0000
Subject: [PATCH 040/126] fix: functions indexed from a Func keep their own
 index

---
 probayes/func.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/probayes/func.py b/probayes/func.py
index d6afe09..76a232c 100644
--- a/probayes/func.py
+++ b/probayes/func.py
@@ -362,8 +362,10 @@ class Func:
      return self._func
    assert self.__ismulti or self.__isscipy, \
      "Cannot index without single func, use Func()"
-   self.__index = spec
-   return self._call
+   def _call(*args, **kwds):
+     self.__index = spec
+     return self._call(*args, **kwds)
+   return _call
 
 #-------------------------------------------------------------------------------
   def __len__(self):
-- 
2.43.0


From 1c4dd089cd150eb4e8faa7da88fd3eb57758616d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:23 +0000
Subject: [PATCH 041/126] fix: functions indexed from a CF keep their own
 unknown

---
 probayes/cf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/probayes/cf.py b/probayes/cf.py
index 5f212ec..7e361a2 100644
--- a/probayes/cf.py
+++ b/probayes/cf.py
@@ -205,8 +205,10 @@ class CF (Func):
      return super().__getitem__(spec)
    assert self.__inpdict, \
        "Input spec as a string only supported with a OrderedDict inp"
-   self.__unknown = spec
-   return self._call
+   def _call(*args, **kwds):
+     self.__unknown = spec
+     return self._call(*args, **kwds)
+   return _call
 
 #-------------------------------------------------------------------------------
   def _call(self, *args, **kwds):
-- 
2.43.0


From ca5829ca909c4a35466d9ee2ef9e65e2a0a4308d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:23 +0000
Subject: [PATCH 042/126] fix: Functional.isiconic returns its flag

---
 probayes/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/functional.py b/probayes/functional.py
index 28735ba..561892c 100644
--- a/probayes/functional.py
+++ b/probayes/functional.py
@@ -105,7 +105,7 @@ class Functional:
   @property
   def isiconic(self):
     """ Iconic flag """
-    return self._iconic
+    return self._isiconic
 
   def add_func(self, spec, func, *args, **kwds):
     """ Adds an function dependency for a specificied inp/out relationship where
-- 
2.43.0


From d242f547a7ee7023fb565d5ff45ba9c9aa2899f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:23 +0000
Subject: [PATCH 043/126] fix: order of expression symbols does not depend on
 set iteration order

---
 probayes/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/expr.py b/probayes/expr.py
index 8e268b9..f2940bb 100644
--- a/probayes/expr.py
+++ b/probayes/expr.py
@@ -19,7 +19,7 @@ def collate_symbols(expr):
   assert isinstance(expr, sympy.Expr), \
     "Input type not Expr type but: {}".format(expr)
   symbols = collections.OrderedDict()
-  for putative_symbol in expr.free_symbols:
+  for putative_symbol in sorted(expr.free_symbols, key=str):
     symbol = putative_symbol
     while hasattr(symbol, 'symbol') and \
         hasattr(symbol, 'name'):
-- 
2.43.0


From aaf91e398a80792bd418b32736c8d0ba7836f0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:23 +0000
Subject: [PATCH 044/126] fix: Prob.eval_prob rescales to the pscale it is
 given

---
 probayes/prob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/prob.py b/probayes/prob.py
index 371f837..216db50 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -376,7 +376,7 @@ class Prob (Expression, SympyProb):
 
     # Optionally rescale
     if pscale:
-      return self.rescale(prob, kwds['pscale'])
+      return self.rescale(prob, pscale=pscale)
     return prob
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 618b30515e8ebd1f5a5bac2321568a43ff6bb234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:23 +0000
Subject: [PATCH 045/126] fix: Prob indexing reports the type of an unsupported
 argument

---
 probayes/prob.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/probayes/prob.py b/probayes/prob.py
index 216db50..761909c 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -399,9 +399,10 @@ class Prob (Expression, SympyProb):
       raise TypeError("Argument input cannot be slice or tuple type")
     if isinstance(arg, (list, dict, set, tuple)):
       assert self.__issympy, \
-          "Input argument of type {} supported only Sympy distributions".type(arg)
+          "Input argument of type {} supported only Sympy distributions".format(
+              type(arg))
       assert not len(arg), \
-          "Input argument of type {} must be empty".type(arg)
+          "Input argument of type {} must be empty".format(type(arg))
       if isinstance(arg, set):
         return self._distr
       if isinstance(arg, list):
-- 
2.43.0


From aae11bf832d375a3c3c07d876b79f5aaccc20cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:23 +0000
Subject: [PATCH 046/126] fix: SympyProb indexing reports the type of an
 unsupported argument

---
 probayes/sympy_prob.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/sympy_prob.py b/probayes/sympy_prob.py
index 41752b0..914d9ae 100644
--- a/probayes/sympy_prob.py
+++ b/probayes/sympy_prob.py
@@ -195,7 +195,8 @@ class SympyProb:
     if isinstance(arg, str) and not len(arg):
       return list(self._exprs.keys())
     if isinstance(arg, (list, dict)):
-      assert not len(arg), "Input argument of type {} must be empty".type(arg)
+      assert not len(arg), "Input argument of type {} must be empty".format(
+          type(arg))
       if isinstance(arg, list):
         return self._distr
       if isinstance(arg, dict):
-- 
2.43.0


From e50ed451b94d4a5338f37664cf0cf2a924fa8ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:51 +0000
Subject: [PATCH 047/126] fix: Prob accepts a zero log offset as its pscale

---
 probayes/prob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/prob.py b/probayes/prob.py
index 761909c..5b97a45 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -133,7 +133,7 @@ class Prob (Expression, SympyProb):
     pscale is used.
     """
     pscale = None if 'pscale' not in kwds else kwds.pop('pscale')
-    self.pscale = pscale or self._pscale
+    self.pscale = self._pscale if pscale is None else pscale
     self.__isscipy = is_scipy_stats_dist(prob)
     self.__issympy = is_sympy_stats_dist(prob)
     self.__issmvar = is_scipy_stats_mvar(prob)
-- 
2.43.0


From 174b8ddece1b7481d34a180054f15c92f65db7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:51 +0000
Subject: [PATCH 048/126] fix: Prob.eval_prob rescales to a zero log offset

---
 probayes/prob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/prob.py b/probayes/prob.py
index 5b97a45..ba6e10b 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -375,7 +375,7 @@ class Prob (Expression, SympyProb):
       prob = self._prob
 
     # Optionally rescale
-    if pscale:
+    if pscale is not None:
       return self.rescale(prob, pscale=pscale)
     return prob
 
-- 
2.43.0


From dc8c0aef0b591e5a846a428a2e3656859bb30220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:16 +0000
Subject: [PATCH 049/126] fix: Bernoulli probabilities of a boolean RV respect
 its pscale

---
 probayes/rv.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index e9f25a3..582a23e 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -144,10 +144,13 @@ class RV (Variable, Prob):
 
     # Reassign non-0.5 Bernoulli probabilities to a formal distribution
     if self._vtype in VTYPES[bool] and self.isscalar:
-      prob = float(self._prob)
-      if not np.isclose(prob, 0.5):
-        super().set_prob(bernoulli_prob(self.icon, bias=prob))
-        super().set_sfun(bernoulli_sfun, bias=prob)
+      bias = float(rescale(float(self._prob), self._pscale, 1.))
+      if not np.isclose(bias, 0.5):
+        prob = bernoulli_prob(self.icon, bias=bias)
+        unit = float(rescale(1., 1., self._pscale))
+        prob = sympy.log(prob) + unit if self._logp else prob * unit
+        super().set_prob(prob)
+        super().set_sfun(bernoulli_sfun, bias=bias)
 
 #-------------------------------------------------------------------------------
   def _default_prob(self):
-- 
2.43.0


From 6702d2e1076c07f93b2c5fe30ac2f06adbe31363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:16 +0000
Subject: [PATCH 050/126] fix: scalar transitional probabilities of an RV
 respect its pscale

---
 probayes/rv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 582a23e..eef8524 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -469,7 +469,8 @@ class RV (Variable, Prob):
       cond = uniform_prob(pred_vals,
                           succ_vals, 
                           prob=float(prob), 
-                          inside=self._inside) 
+                          inside=self._inside,
+                          pscale=self._pscale)
                   
 
     # Handle discrete non-callables
-- 
2.43.0


From c6fe7d8e919bb335a72e75dc4404b5c74975ef21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:16 +0000
Subject: [PATCH 051/126] fix: RV.step evaluates a successor from a cumulative
 probability

---
 probayes/rv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index eef8524..ef5e6ce 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -394,10 +394,10 @@ class RV (Variable, Prob):
             "Inverse CDF sampling for scalar probabilities unavailable for " + \
             "{} data type".format(self._vtype)
         cdf_val = list(succ_vals)[0]
-        lo, hi = min(self._limits), max(self._limits)
-        succ_val = lo*(1.-cdf_val) + hi*cdf_val
+        lo, hi = min(self._ulims), max(self._ulims)
+        succ_vals = lo*(1.-cdf_val) + hi*cdf_val
         if self._ufun is not None:
-          succ_val = self.ufun[-1](succ_val)
+          succ_vals = self.ufun[-1](succ_vals)
 
       prob = self._tran() if self._tran is not None else None
       pred_vals, succ_vals, dims = _reshape_vals(pred_vals, succ_vals)
-- 
2.43.0


From 07168d1012217fbab96b7127dcd313b111c925a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:16 +0000
Subject: [PATCH 052/126] fix: RV.step samples callable transitionals from a
 cumulative probability

---
 probayes/rv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index ef5e6ce..e0e6a9b 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -426,7 +426,7 @@ class RV (Variable, Prob):
         assert isscalar(pred_vals), \
             "Successor sampling only possible with scalar predecessors"
         succ_vals = list(succ_vals)[0]
-        if type(succ_vals) in VTYPES[int] or type(succ_vals) in VTYPES[np.uint]:
+        if type(succ_vals) in VTYPES[int]:
           lo, hi = min(self._ulims), max(self._ulims)
           kwds.update({self._name+"'": np.array([lo, hi], dtype=float)})
           lohi = self._tfun[0](**kwds)
-- 
2.43.0


From 7b6af0f6bbe51b6a9e00e76369cd356a0f1361ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:16 +0000
Subject: [PATCH 053/126] fix: uniform_prob evaluates membership of an
 uncallable variable set

---
 probayes/rv_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/probayes/rv_utils.py b/probayes/rv_utils.py
index b6087b9..ca5e889 100644
--- a/probayes/rv_utils.py
+++ b/probayes/rv_utils.py
@@ -21,10 +21,11 @@ def uniform_prob(*args, prob=None, inside=None, pscale=1.):
 
   # Set inside function by vtype if not specified
   if not callable(inside):
+    vset = inside
     if vtype in VTYPES[float]:
-      inside = lambda x: np.logical_and(x >= min(inside), x <= max(inside))
+      inside = lambda x: np.logical_and(x >= min(vset), x <= max(vset))
     else:
-      inside = lambda x: np.isin(x, inside)
+      inside = lambda x: np.isin(x, vset)
 
   # If scalar, check within variable set
   p_zero = NEARLY_NEGATIVE_INF if use_logs else 0.
-- 
2.43.0


From f9266910d9e86bf99a45ddbdfe8b38a237f61a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:16 +0000
Subject: [PATCH 054/126] fix: matrix_cond_sample returns the successors
 sampled as an array

---
 probayes/rv_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rv_utils.py b/probayes/rv_utils.py
index ca5e889..a691185 100644
--- a/probayes/rv_utils.py
+++ b/probayes/rv_utils.py
@@ -72,7 +72,7 @@ def matrix_cond_sample(pred_vals, succ_vals, prob, vset=None):
   else:
     succ_cmf = np.atleast_1d(succ_cmf)
   succ_idx = np.maximum(0, np.minimum(support-1, np.digitize(succ_cmf, cmf)))
-  return vset[succ_idx], pred_idx, succ_idx
+  return np.array(vset)[succ_idx], pred_idx, succ_idx
 
 #-------------------------------------------------------------------------------
 def lookup_square_matrix(col_vals, row_vals, sq_matrix, 
-- 
2.43.0


From 31ec8e82df059dfaf52faf7ae0de48787b099a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:16 +0000
Subject: [PATCH 055/126] fix: combining an RV with an SD passes its leafs as a
 single random field

---
 probayes/rv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index e0e6a9b..9ebe4ec 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -551,7 +551,7 @@ class RV (Variable, Prob):
       leafs = [self] + list(other.leafs.vars.values())
       stems = other.stems
       roots = other.roots
-      args = RF(*tuple(leafs))
+      args = [RF(*tuple(leafs))]
       if stems:
         args += list(stems.values())
       if roots:
-- 
2.43.0


From 2929d88f6a025c8c3edf0bd1301eb54bcf9bb0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:44 +0000
Subject: [PATCH 056/126] fix: Prob only extracts the methods of the SciPy
 object it calls

---
 probayes/prob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/prob.py b/probayes/prob.py
index ba6e10b..68e781c 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -210,7 +210,7 @@ class Prob (Expression, SympyProb):
 
       # Iterate available methods
       for method in SCIPY_DIST_METHODS:
-        if hasattr(self._prob, method):
+        if hasattr(self._expr, method):
           call = functools.partial(Expression._partial_call, self, 
                                    getattr(self._expr, method),
                                    *self._args, **self._kwds)
-- 
2.43.0


From aa1882df015379aedb31d418e71a9263013ff9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:53 +0000
Subject: [PATCH 057/126] fix: multivariate SciPy probabilities are evaluated
 with components in order

---
 probayes/prob.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/probayes/prob.py b/probayes/prob.py
index 68e781c..83098e7 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -351,10 +351,7 @@ class Prob (Expression, SympyProb):
           if len(vals) == 1:
             vals = np.array(vals)
           else:
-            vals = vals[::-1]
-            if len(vals) > 2:
-              vals = vals[1:] + [vals[0]]
-            vals = np.stack(np.meshgrid(*tuple(vals)), axis=-1)
+            vals = np.stack(np.meshgrid(*tuple(vals), indexing='ij'), axis=-1)
           prob = prob(vals)
         else:
           prob = prob(*args)
-- 
2.43.0


From 11e96fa02ff445129de042780d7e7f63312d86fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:14 +0000
Subject: [PATCH 058/126] fix: Expression order and delta mappings may exchange
 keywords

---
 probayes/expression.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index e16d598..36ef5b0 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -420,6 +420,7 @@ class Expression:
       args.append(None)
 
     # Callables with order wrapper
+    rekeyed = {}
     if self.__order:
       for key, val in self.__order.items():
         if type(val) is int:
@@ -427,10 +428,11 @@ class Expression:
         elif val is None:
           kwds.pop(key)
         elif isinstance(val, str):
-          kwds.update({val: kwds.pop(key)})
+          rekeyed.update({val: kwds.pop(key)})
         else:
           raise TypeError("Unrecognised order key: val type: {}:{}".\
                           format(key, val))
+      kwds.update(rekeyed)
       return expr(*tuple(args), **kwds)
 
     # Callables with delta wrapper
@@ -444,10 +446,11 @@ class Expression:
       elif val is None:
         pass
       elif isinstance(val, str):
-        kwds.update({val: value})
+        rekeyed.update({val: value})
       else:
         raise TypeError("Unrecognised delta key: val type: {}:{}".\
                         format(key, val))
+    kwds.update(rekeyed)
 
     #argsout = args; kwdsout = kwds; import pdb; pdb.set_trace() # debugging
     return expr(*tuple(args), **kwds)
-- 
2.43.0


From 3dc84ce10ff195fdef529ef77ced39dfbbf72b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:14 +0000
Subject: [PATCH 059/126] fix: Func order and delta mappings may exchange
 keywords

---
 probayes/func.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/probayes/func.py b/probayes/func.py
index 76a232c..4d65483 100644
--- a/probayes/func.py
+++ b/probayes/func.py
@@ -292,6 +292,7 @@ class Func:
       args.append(None)
 
     # Callables with order wrapper
+    rekeyed = {}
     if self.__order:
       for key, val in self.__order.items():
         if type(val) is int:
@@ -299,10 +300,11 @@ class Func:
         elif val is None:
           kwds.pop(key)
         elif isinstance(val, str):
-          kwds.update({val: kwds.pop(key)})
+          rekeyed.update({val: kwds.pop(key)})
         else:
           raise TypeError("Unrecognised order key: val type: {}:{}".\
                           format(key, val))
+      kwds.update(rekeyed)
       return func(*tuple(args), **kwds)
 
     # Callables with delta wrapper
@@ -316,10 +318,11 @@ class Func:
       elif val is None:
         pass
       elif isinstance(val, str):
-        kwds.update({val: value})
+        rekeyed.update({val: value})
       else:
         raise TypeError("Unrecognised delta key: val type: {}:{}".\
                         format(key, val))
+    kwds.update(rekeyed)
     return func(*tuple(args), **kwds)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From cd872010f2bf8c81b62430772241f3f08a5eb1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:14 +0000
Subject: [PATCH 060/126] fix: Func evaluates multivariate SciPy objects with
 components in order

---
 probayes/func.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/probayes/func.py b/probayes/func.py
index 4d65483..9c2eb87 100644
--- a/probayes/func.py
+++ b/probayes/func.py
@@ -340,13 +340,9 @@ class Func:
       elif not len(args) and len(kwds):
         args = list(collections.OrderedDict(**kwds).values())
         kwds = {}
-      if isinstance(args, list) and not np.all([isunitary(arg) for arg in args]):
-        args = args[::-1]
-        if len(args) > 2:
-          args = args[1:] + [args[0]]
-        args = tuple(args)
-      return self.__scipycalls[index](np.stack(np.meshgrid(*args), axis=-1), 
-                                      **kwds)
+      indexing = 'ij' if isinstance(args, list) else 'xy'
+      mesh = np.meshgrid(*tuple(args), indexing=indexing)
+      return self.__scipycalls[index](np.stack(mesh, axis=-1), **kwds)
     return self.__scipycalls[index](*args, **kwds)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From ab035175755028ef766e3500195f934fe57b48c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:15 +0000
Subject: [PATCH 061/126] fix: an RV evaluates an array of probabilities over
 its variable set

---
 probayes/rv.py       |  6 ++++--
 probayes/rv_utils.py | 13 +++++++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 9ebe4ec..dd7a987 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -12,7 +12,7 @@ from probayes.vtypes import uniform, VTYPES, isscalar, \
 from probayes.pscales import rescale
 from probayes.expression import Expression
 from probayes.sympy_prob import bernoulli_prob, bernoulli_sfun
-from probayes.rv_utils import uniform_prob, matrix_cond_sample, \
+from probayes.rv_utils import uniform_prob, tabulated_prob, matrix_cond_sample, \
                           lookup_square_matrix
 from probayes.distribution import Distribution
 from probayes.pd import PD
@@ -316,7 +316,9 @@ class RV (Variable, Prob):
     """
     values = values[self.name] if isinstance(values, dict) else values
     if not self.isscalar:
-      return super().eval_prob(values)
+      if self.callable:
+        return super().eval_prob(values)
+      return tabulated_prob(values, self._prob, self._vset, self._pscale)
     return uniform_prob(values, 
                         prob=float(self._prob), 
                         inside=self._inside,
diff --git a/probayes/rv_utils.py b/probayes/rv_utils.py
index a691185..969d014 100644
--- a/probayes/rv_utils.py
+++ b/probayes/rv_utils.py
@@ -47,6 +47,19 @@ def uniform_prob(*args, prob=None, inside=None, pscale=1.):
         prob = prob * uniform_prob(arg, inside=inside)
   return prob
 
+#-------------------------------------------------------------------------------
+def tabulated_prob(vals, prob, vset, pscale=1.):
+  """ Probabilities of vals given an array of probabilities over vset. """
+  if vals is None:
+    return prob
+  p_zero = NEARLY_NEGATIVE_INF if iscomplex(eval_pscale(pscale)) else 0.
+  if isscalar(vals):
+    return prob[vset.index(vals)] if vals in vset else p_zero
+  probs = np.tile(p_zero, vals.shape)
+  for val, p_val in zip(vset, prob):
+    probs[vals == val] = p_val
+  return probs
+
 #-------------------------------------------------------------------------------
 def matrix_cond_sample(pred_vals, succ_vals, prob, vset=None):
   """ Returns succ_vals with sampling """
-- 
2.43.0


From 45b260233337758c7486e2dc4031919afe412712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:15 +0000
Subject: [PATCH 062/126] fix: resetting a Bernoulli probability resets its
 sampling function

---
 probayes/rv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/probayes/rv.py b/probayes/rv.py
index dd7a987..d930ae0 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -130,6 +130,8 @@ class RV (Variable, Prob):
     pscale is used.
     """
     super().set_prob(prob, *args, **kwds)
+    if self._sfun is not None and self._sfun.expr == bernoulli_sfun:
+      self.set_sfun() # a previous Bernoulli bias no longer applies
     if self._prob is None:
       self._default_prob()
     else:
-- 
2.43.0


From e762d1abc69a44b7b0ed97b5432b556d28ba0f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:53 +0000
Subject: [PATCH 063/126] fix: joint probability of independent RVs honours a
 log pscale of zero offset

---
 probayes/rf_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/rf_utils.py b/probayes/rf_utils.py
index 484e4eb..d032e22 100644
--- a/probayes/rf_utils.py
+++ b/probayes/rf_utils.py
@@ -13,7 +13,8 @@ def rv_prod_rule(*args, rvs, pscale=None):
   """
   values = args[0]
   pscales = [rv.pscale for rv in rvs]
-  pscale = pscale or prod_pscale(pscales)
+  if pscale is None:
+    pscale = prod_pscale(pscales)
   use_logs = iscomplex(pscale)
   probs = [rv.eval_prob(values[rv.name]) for rv in rvs]
   prob, pscale = prod_rule(*tuple(probs),
-- 
2.43.0


From 3c233cb03a5e416b8c300e9cc1d42cad0bf76927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:53 +0000
Subject: [PATCH 064/126] fix: RF.passdims returns its flag

---
 probayes/rf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index 06180db..b315edb 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -82,7 +82,7 @@ class RF (Field, Prob):
 
   @property
   def passdims(self):
-    return self.passdims
+    return self._passdims
 
   @property
   def def_prob(self):
-- 
2.43.0


From 4e461f24973e3cfd86222418fe2d29ec98ed6fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:53 +0000
Subject: [PATCH 065/126] fix: RF.set_prop accepts proposition dependencies

---
 probayes/rf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index b315edb..cfd8421 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -151,7 +151,7 @@ class RF (Field, Prob):
     :param **kwds: optional keywords to pass if prop is callable.
     """
     self._prop = prop
-    self._prop_deps = self._keylist if 'deps' not in kwds else kwds.pop['deps']
+    self._prop_deps = self._keylist if 'deps' not in kwds else kwds.pop('deps')
     if self._prop is None:
       return
     assert self._anystoch, \
-- 
2.43.0


From 4b7429aa6c5cbdfa2e95d5536a08f4d1f13750a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:53 +0000
Subject: [PATCH 066/126] fix: default joint probability of an RF adds log
 probabilities

---
 probayes/rf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index cfd8421..5bc3151 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -123,7 +123,7 @@ class RF (Field, Prob):
           var_prob = var.prob
           mul = var_prob if not isinstance(var_prob, Expr) else var_prob._expr
           if prob is not None:
-            prob = prob * mul
+            prob = prob + mul if self._logp else prob * mul
           else:
             prob = mul
       self.set_prob(prob, pscale=self._pscale)
-- 
2.43.0


From 7eeb9b59573e3fad81ac096b7a3903281defc315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:53 +0000
Subject: [PATCH 067/126] fix: RF.reval_tran evaluates the reverse transition
 of an asymmetric transitional

---
 probayes/rf.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index 5bc3151..1f79e4f 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -528,12 +528,8 @@ class RF (Field, Prob):
     name = margcond_str(marg, cond)
     vals = collections.OrderedDict(dist)
     dims = dist.dims
-    # This next line needs to be modified to handle new API
-    """
     prob = dist.prob if self._sym_tran or self._tran is None \
-           else self._tran[1](dist)
-    """
-    prob = dist.prob
+           else self.eval_tran(vals, reverse=True)
     pscale = dist.pscale
     return PD(name, vals, dims=dims, prob=prob, pscale=pscale)
 
-- 
2.43.0


From 09cbda60835c83eeb29b76cbece26e04dba33acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:53 +0000
Subject: [PATCH 068/126] fix: RF.eval_tfun assigns jointly sampled variables
 to their own keys

---
 probayes/rf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index 1f79e4f..f393b6b 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -468,14 +468,14 @@ class RF (Field, Prob):
         "Transitional sampling function not specified as a multiple sampler"
     for key in keys:
       values = self._tfun[key](succ_vals, *args, **kwds)
-      rv_names = [key] if ',' not in keys else key.split(',')
+      rv_names = [key] if ',' not in key else key.split(',')
       if len(rv_names) > 1:
         assert isinstance(values, dict), \
             "Ambiguous output from CF {} for RV {}".format(self._tfun, key)
         for rv_key, rv_val in values.items():
           assert rv_key in succ_vals.keys(), \
               "Key {} not found in {}".format(rv_key, succ_vals.keys())
-          succ_vals[key] = rv_val
+          succ_vals[rv_key] = rv_val
       else:
         rv_name = rv_names[0]
         if isinstance(values, dict):
-- 
2.43.0


From b107a956a24d721b595fb9645122d396f60d4550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:53 +0000
Subject: [PATCH 069/126] fix: RF.eval_tfun treats multiple transitional
 functions as it does single

---
 probayes/rf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index f393b6b..7c8405e 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -418,7 +418,7 @@ class RF (Field, Prob):
       return None
     if self._tfun.isscalar:
       if self._tfun.ismulti:
-        return self._tfun[int(reverse)]() * values()
+        return self._tfun[int(reverse)]() * values
       else:
         return self._tfun() * values
     if not self._tfun.callable:
@@ -430,7 +430,7 @@ class RF (Field, Prob):
     # If values is not a dictionary then allow a custom call
     if not isinstance(values, dict):
       if self._tfun.ismulti:
-        return self._tfun[int(reverse)](values, *args, **kwds).dot(values)
+        return self._tfun[int(reverse)](values, *args, **kwds)
       else:
         return self._tfun(values, *args, **kwds)
 
-- 
2.43.0


From af07532fad41a7bc3082d70329e0b4363abaf557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:53 +0000
Subject: [PATCH 070/126] fix: RF.eval_step inspects predecessor values rather
 than their keys

---
 probayes/rf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index 7c8405e..2774ee5 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -370,7 +370,7 @@ class RF (Field, Prob):
     """ Returns adjusted succ_vals """
     if succ_vals is None:
       if self._delta is None:
-        if all([isscalar(pred_value) for pred_value in pred_vals]):
+        if all([isscalar(pred_value) for pred_value in pred_vals.values()]):
           succ_vals = {0}
 
     # If not sampling succeeding values, use deterministic call
-- 
2.43.0


From cefc84a5b1843636e50a9f5b7508afa460de8203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:53 +0000
Subject: [PATCH 071/126] fix: slice_by_keyvals defaults dimensions from values

---
 probayes/rf_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/rf_utils.py b/probayes/rf_utils.py
index d032e22..96b97f1 100644
--- a/probayes/rf_utils.py
+++ b/probayes/rf_utils.py
@@ -94,12 +94,13 @@ def slice_by_keyvals(spec, vals, prob, vals_dims=None, spec_dims=None):
       if isscalar(val):
         dims.update({key: None})
       else:
-        assert val.size == np.product(vals.shape), \
+        assert val.size == max(val.shape), \
             "Multiple non-singleton dimensions: {}".format(val.size)
         if val.size > 1:
           run_dim = np.argmax(val.shape)
         dims.update({key: run_dim})
         run_dim += 1
+    return dims
 
   # Default spec_dims and vals_dims if not given 
   if spec_dims is None:
-- 
2.43.0


From 539a3d4d4b9f40039425786808449b8a8c21e3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:53 +0000
Subject: [PATCH 072/126] fix: a Field can be instantiated without any
 variables

---
 probayes/field.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/probayes/field.py b/probayes/field.py
index ba2ee06..6f8d692 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -114,7 +114,7 @@ class Field (NX_UNDIRECTED_GRAPH):
 
     :param var: a Variable or Field instance, or a list/tuple of Variable instances.
     """
-    variables = []
+    variables = [var]
     if isinstance(var, (Field, dict, set, tuple, list)):
       variables = var
       if isinstance(variables, Field):
@@ -128,13 +128,6 @@ class Field (NX_UNDIRECTED_GRAPH):
         assert var not in list(self.nodes), \
             "Existing variable {} already present in collection".format(var)
       super().add_node(var)
-    else:
-      assert isinstance(var, Variable), \
-          "Input not a variable instance but of type: {}".format(type(var))
-      if self._nvars:
-        assert var not in list(self.nodes), \
-            "Existing variable {} already present in collection".format(var)
-      super().add_node(var)
     self._refresh()
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From d998e0c189c779d06119df6b7d16f0173756aa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:53 +0000
Subject: [PATCH 073/126] fix: Field deltas specified by dictionary are passed
 to their variables

---
 probayes/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/field.py b/probayes/field.py
index 6f8d692..da6c980 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -259,7 +259,7 @@ class Field (NX_UNDIRECTED_GRAPH):
     # Handle deltas and dictionaries
     if isinstance(self._delta, dict):
       self._delta = self._delta_type(**self._delta)
-    if isinstance(delta, self._delta_type):
+    if isinstance(self._delta, self._delta_type):
       assert not args, \
         "Optional args prohibited for dict/delta instance inputs"
       for i, var in enumerate(self._varlist):
-- 
2.43.0


From 0cfa2357161b890fee31d0fccae09c2461af72cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:53 +0000
Subject: [PATCH 074/126] fix: Field.eval_delta evaluates a delta it is given

---
 probayes/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/field.py b/probayes/field.py
index da6c980..364234e 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -482,7 +482,7 @@ class Field (NX_UNDIRECTED_GRAPH):
       delta = delta()
     elif isinstance(delta, self._delta_type):
       delta_dict = collections.OrderedDict()
-      variables = self.ret_vars(aslist=True)
+      variables = self._varlist
       for i, key in enumerate(self._keylist):
         delta_dict.update({key: variables[i].eval_delta(delta[i])})
       delta = self._delta_type(**delta_dict)
-- 
2.43.0


From 9e89381d10958d9fe3c08b47d1b1955cd9e42275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:53 +0000
Subject: [PATCH 075/126] fix: spherical Field deltas include the variables
 specified separately

---
 probayes/field.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/probayes/field.py b/probayes/field.py
index 364234e..a63ce5f 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -495,14 +495,13 @@ class Field (NX_UNDIRECTED_GRAPH):
     # Rule out possibility of all variables contained in unscaling argument
     assert isinstance(delta, tuple), \
         "Unknown delta type: {}".format(delta)
-    unscale = {} if not self._delta_args else self._delta_args
+    unscale = {} if not self._delta_args else self._delta_args[0]
     if not len(self._spherise):
       return self._delta_type(**unscale)
 
     # Spherical version
     delta = delta[0]
     spherise = self._spherise
-    keys = self._spherise.keys()
     rss = real_sqrt(np.sum(np.array(list(spherise.values()))**2))
     if self._delta_kwds['scale']:
       delta *= rss
@@ -511,7 +510,7 @@ class Field (NX_UNDIRECTED_GRAPH):
     deltas = (deltas * delta) / rss_deltas
     delta_dict = collections.OrderedDict()
     idx = 0
-    for i, key in enumerate(keys):
+    for i, key in enumerate(self._keylist):
       if key in unscale:
         val = unscale[key]
       else:
-- 
2.43.0


From 3de57647b6774e24d19d344e907bbaf7241b0c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:53 +0000
Subject: [PATCH 076/126] fix: Field.subfield accepts fields as vertices

---
 probayes/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/field.py b/probayes/field.py
index a63ce5f..d4268f7 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -606,7 +606,7 @@ class Field (NX_UNDIRECTED_GRAPH):
     variables = []
     for vertex in vertices:
       if isinstance(vertex, Field):
-        variables += [vertex.ret_vars(aslist=True)]
+        variables += vertex.varlist
       elif isinstance(vertex, Variable):
         variables += [vertex]
       elif isinstance(vertex, str):
-- 
2.43.0


From 44495b8bfb71e9c936380b200723298de0510815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:53 +0000
Subject: [PATCH 077/126] fix: Field inequality is the negation of its equality

---
 probayes/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/field.py b/probayes/field.py
index d4268f7..29daae4 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -647,7 +647,7 @@ class Field (NX_UNDIRECTED_GRAPH):
 #-------------------------------------------------------------------------------
   def __ne__(self, other):
     """ Equality for Field is defined as comprising the same Variables """
-    return not self.__eq__(other)
+    return not self == other
 
 #-------------------------------------------------------------------------------
   def __getitem__(self, key):
-- 
2.43.0


From 2277bdb34c373d7a0d4c09453a2dd70720ae26ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:53 +0000
Subject: [PATCH 078/126] fix: a Dependence of more than two fields unites the
 leading fields as leafs

---
 probayes/dependence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/dependence.py b/probayes/dependence.py
index 8c60941..69905fc 100644
--- a/probayes/dependence.py
+++ b/probayes/dependence.py
@@ -94,7 +94,7 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
         for var in variables:
           NX_DIRECTED_GRAPH.add_node(self, var)
         return self._refresh(fields[0])
-      leafs_vars = fields[0].varlist
+      leafs_vars = list(fields[0].varlist)
       roots_vars = fields[-1].varlist
       if len(fields) > 2:
         for field in fields[1:-1]:
@@ -112,7 +112,7 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
           NX_DIRECTED_GRAPH.add_edge(self, roots_var, leafs_var)
       if len(fields) == 2:
         return self._refresh(fields[0], fields[1])
-      return self._refresh(self._field_cls(*tuple(leafs_var)), fields[-1])
+      return self._refresh(self._field_cls(*tuple(leafs_vars)), fields[-1])
 
     # At this point, all arguments must be dependences
     assert all(arg_aredep), "Cannot mix Dependences with other input types"
-- 
2.43.0


From b5c5ab992e5b93ae7e49137b4cb5563eb91ff147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:53 +0000
Subject: [PATCH 079/126] fix: order of Dependence predecessors does not depend
 on set iteration order

---
 probayes/dependence.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/probayes/dependence.py b/probayes/dependence.py
index 69905fc..fb582af 100644
--- a/probayes/dependence.py
+++ b/probayes/dependence.py
@@ -236,9 +236,10 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
     if not self._stems:
       self._preds = None if not self._roots else self._roots
     else:
-      preds = set()
+      preds = collections.OrderedDict()
       for leaf_var in self._leafs.varlist:
-        [preds.add(pred_var) for pred_var in self.predecessors(leaf_var)]
+        for pred_var in self.predecessors(leaf_var):
+          preds.update({pred_var: None})
       self._preds = self._field_cls(*tuple(preds))
 
     # Default functions for implicit architectures
-- 
2.43.0


From 3f89eec1759f7145578e2522df4bcc4d3b1a8b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:53 +0000
Subject: [PATCH 080/126] fix: Dependence.eval_dist_name accepts values common
 to all variables

---
 probayes/dependence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/dependence.py b/probayes/dependence.py
index fb582af..90bd09b 100644
--- a/probayes/dependence.py
+++ b/probayes/dependence.py
@@ -345,8 +345,8 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
       return super().eval_dist_name(values, suffix)
     keys = self._keylist 
     vals = collections.OrderedDict()
-    if not isinstance(vals, dict):
-      vals.update({key: vals for key in keys})
+    if not isinstance(values, dict):
+      vals.update({key: values for key in keys})
     else:
       for key, val in values.items():
         if ',' in key:
-- 
2.43.0


From 84d8f1ad1b6d8c43d7ac73b4436f7d2efb515cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:53 +0000
Subject: [PATCH 081/126] fix: a Variable can be combined with a Dependence

---
 probayes/ops.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/probayes/ops.py b/probayes/ops.py
index 5da738a..aa683f7 100644
--- a/probayes/ops.py
+++ b/probayes/ops.py
@@ -54,12 +54,12 @@ def and_op(self, other):
       leafs = [self] + list(other.leafs.vars.values())
       stems = other.stems
       roots = other.roots
-      args = fld(*tuple(leafs))
+      args = [fld(*tuple(leafs))]
       if stems:
         args += list(stems.values())
       if roots:
-        args += list(roots.values())
-      return dep(*args)
+        args += [roots]
+      return dep(*tuple(args))
 
     if isinstance(other, Field):
       var = [self] + list(other.vars.values())
-- 
2.43.0


From 2b0d4e17c5ef4561826339208394d8639fac50c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:53 +0000
Subject: [PATCH 082/126] fix: an RV can be combined with an SD with roots

---
 probayes/rv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index d930ae0..893ae3d 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -559,7 +559,7 @@ class RV (Variable, Prob):
       if stems:
         args += list(stems.values())
       if roots:
-        args += list(roots.values())
+        args += [roots]
       return SD(*args)
 
     if isinstance(other, RF):
-- 
2.43.0


From a1b50d10cd54b3a4531eeb4107a26a8323d805ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:53 +0000
Subject: [PATCH 083/126] fix: refused operands are reported with their type

---
 probayes/ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/ops.py b/probayes/ops.py
index aa683f7..d8b9871 100644
--- a/probayes/ops.py
+++ b/probayes/ops.py
@@ -68,9 +68,9 @@ def and_op(self, other):
     if isinstance(other, Variable):
       return fld(self, other)
   
-    raise TypeError("Unrecognised post-operand type: ".format(type(other)))
+    raise TypeError("Unrecognised post-operand type: {}".format(type(other)))
 
-  raise TypeError("Unrecognised pre-operand type: ".format(type(self)))
+  raise TypeError("Unrecognised pre-operand type: {}".format(type(self)))
 
 #-------------------------------------------------------------------------------
 def or_op(self, other):
-- 
2.43.0


From ea372daeb598902a3ea3c3bede0ded2870df6ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:53 +0000
Subject: [PATCH 084/126] fix: desuffix accepts values without suffixes

---
 probayes/sd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/sd_utils.py b/probayes/sd_utils.py
index 0fe7761..3b9f5c9 100644
--- a/probayes/sd_utils.py
+++ b/probayes/sd_utils.py
@@ -10,7 +10,7 @@ def desuffix(values, suffix="'"):
   suffix_found = any([key[-1] == suffix for key in values.keys()])
   vals = collections.OrderedDict()
   if not suffix_found:
-    vals.update({values})
+    vals.update(values)
     return vals
   for key, val in values.items():
     vals_key = key if key[-1] != suffix else key[:-1]
-- 
2.43.0


From 6e1631cfbd4b7e2110a7555f0865e1992121dc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:53 +0000
Subject: [PATCH 085/126] fix: parallel dependences can be evaluated for scalar
 values

---
 probayes/sd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/sd_utils.py b/probayes/sd_utils.py
index 3b9f5c9..ff29996 100644
--- a/probayes/sd_utils.py
+++ b/probayes/sd_utils.py
@@ -40,7 +40,7 @@ def arch_prob(arch, dims, **kwds):
   probs = [None] * len(arch)
   for i, subarch in enumerate(arch):
     keyset = subarch.keylist
-    vals = {key: values[key] for key in dimkeys if key in keyset}
+    vals = {key: values[key] for key in values.keys() if key in keyset}
     subdims = {key: dims[key] for key in dimkeys if key in keyset}
     probs[i] = subarch.eval_prob(vals, subdims)
   if serial:
-- 
2.43.0


From 5cbc9a160aa97d4d783f8929133c4f0fc8ef352c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:21 +0000
Subject: [PATCH 086/126] fix: a Field of one variable evaluates and applies
 the delta of its variable

---
 probayes/field.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/probayes/field.py b/probayes/field.py
index 29daae4..ec1ba14 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -466,7 +466,7 @@ class Field (NX_UNDIRECTED_GRAPH):
       if self._delta is None:
         variables = list(self._varlist)
         if len(variables) == 1 and variables[0]._delta is not None:
-          return variables[0]._delta
+          return self._delta_type(variables[0].eval_delta())
         return None
       elif isinstance(self._delta, Expression):
         delta = self._delta()
@@ -529,8 +529,8 @@ class Field (NX_UNDIRECTED_GRAPH):
       return values
     if not isinstance(delta, self._delta_type):
       variables = self._varlist
-      if len(variables) == 1 and isinstance(delta, variables[0].delta):
-        return variables[0].apply_delta(values, delta)
+      if len(variables) == 1 and isinstance(delta, variables[0].Delta):
+        return self.apply_delta(values, self._delta_type(delta))
       raise TypeError("Cannot apply delta without providing delta type {}".\
         format(self._delta_type))
     bound = False if 'bound' not in self._delta_kwds \
-- 
2.43.0


From b4c399914d4beeecf56da27f98d4d9f579551dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:21 +0000
Subject: [PATCH 087/126] fix: a Dependence can be combined with a Variable or
 Field

---
 probayes/ops.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/probayes/ops.py b/probayes/ops.py
index d8b9871..a622dc4 100644
--- a/probayes/ops.py
+++ b/probayes/ops.py
@@ -21,7 +21,17 @@ def and_op(self, other):
 
   # Dependence as pre-operand
   if isinstance(self, Dependence):
-    return dep(other, self)
+    if isinstance(other, Dependence):
+      return dep(other, self)
+    leafs = list(self.leafs.varlist)
+    if isinstance(other, Field):
+      leafs += list(other.varlist)
+    else:
+      leafs += [other]
+    args = [fld(*tuple(leafs))] + list(self.stems.values())
+    if self.roots:
+      args += [self.roots]
+    return dep(*tuple(args))
 
   # Field as pre-operand
   if isinstance(self, Field):
-- 
2.43.0


From e47d31d56ae98340c8fd5f6061a8c8acba7879bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:07 +0000
Subject: [PATCH 088/126] fix: product matches conditional with marginal
 variables by key

---
 probayes/pd_utils.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index 3ea18ac..6bc2589 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -197,8 +197,9 @@ def product(*args, **kwds):
   prod_marg_name = ','.join(prod_marg)
   flat_cond_names = [name for dist_cond_names in cond_names \
                           for name in dist_cond_names]
+  prod_marg_keys = str2key(prod_marg)
   cond2marg = [cond_name for cond_name in flat_cond_names \
-                         if cond_name in prod_marg]
+                         if str2key(cond_name) in prod_marg_keys]
   prod_cond = [cond_name for cond_name in flat_cond_names \
                          if cond_name not in cond2marg]
   prod_cond = list(collections.OrderedDict.fromkeys(prod_cond))
@@ -206,22 +207,22 @@ def product(*args, **kwds):
 
   # Check conditionals compatible
   prod_cond_set = set(prod_cond)
-  cond2marg_dict = {name: None for name in cond2marg}
+  cond2marg_dict = {key: None for key in str2key(cond2marg)}
   for i, arg in enumerate(args):
     cond_set = set(cond_names[i]) - cond2marg_set
     if cond_set:
       assert prod_cond_set == cond_set, \
           "Incompatible product conditional {} for conditional set {}: ".format(
               prod_cond_set, cond_set)
-    for name in cond2marg:
-      if name in arg.keys():
-        values = arg[name]
+    for key in cond2marg_dict.keys():
+      if key in arg.keys() and not isunitsetint(arg[key]):
+        values = arg[key]
         if not isscalar(values):
           values = np.ravel(values)
-        if cond2marg_dict[name] is None:
-          cond2marg_dict[name] = values
-        elif not np.allclose(cond2marg_dict[name], values):
-          raise ValueError("Mismatch in values for condition {}".format(name))
+        if cond2marg_dict[key] is None:
+          cond2marg_dict[key] = values
+        elif not np.allclose(cond2marg_dict[key], values):
+          raise ValueError("Mismatch in values for condition {}".format(key))
 
   # Establish product name, values, and dimensions
   prod_keys = str2key(prod_marg + prod_cond)
-- 
2.43.0


From 07bfbaaeff299aee14768fb5be6b8ebf31a5f2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:30 +0000
Subject: [PATCH 089/126] fix: combined dependences honour the pscales of their
 components

---
 probayes/sd.py       |  5 ++++-
 probayes/sd_utils.py | 11 ++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/probayes/sd.py b/probayes/sd.py
index 77781c0..b126ef6 100644
--- a/probayes/sd.py
+++ b/probayes/sd.py
@@ -7,6 +7,7 @@ from probayes.dependence import Dependence
 from probayes.rv import RV
 from probayes.rf import RF
 from probayes.pd_utils import product
+from probayes.pscales import prod_pscale
 from probayes.sd_utils import desuffix, get_suffixed, arch_prob
 
 #-------------------------------------------------------------------------------
@@ -82,7 +83,9 @@ class SD (Dependence, RF):
     prob = super().set_prob(prob, *args, **kwds)
     if prob is not None or not isinstance(self._arch, (list, tuple)):
       return prob
-    return super().set_prob(arch_prob, arch=self._arch, passdims=True)
+    pscale = prod_pscale([subarch.pscale for subarch in self._arch])
+    return super().set_prob(arch_prob, arch=self._arch, arch_pscale=pscale,
+                            passdims=True, pscale=pscale)
 
 #-------------------------------------------------------------------------------
   def set_prop(self, prop=None, *args, **kwds):
diff --git a/probayes/sd_utils.py b/probayes/sd_utils.py
index ff29996..90edb15 100644
--- a/probayes/sd_utils.py
+++ b/probayes/sd_utils.py
@@ -1,7 +1,7 @@
 # Utility module for SD objects
 
 import collections
-from probayes.pscales import prod_rule
+from probayes.pscales import prod_rule, rescale
 
 #-------------------------------------------------------------------------------
 def desuffix(values, suffix="'"):
@@ -30,8 +30,9 @@ def get_suffixed(values, unsuffix=True, suffix="'"):
   return vals
 
 #-------------------------------------------------------------------------------
-def arch_prob(arch, dims, **kwds):
-  """ Returns the combined probability of for arch given values """
+def arch_prob(arch, dims, arch_pscale, **kwds):
+  """ Returns the combined probability of for arch given values, scaled
+  according to arch_pscale. """
  
   values = dict(kwds)
   dimkeys = list(dims.keys())
@@ -44,9 +45,9 @@ def arch_prob(arch, dims, **kwds):
     subdims = {key: dims[key] for key in dimkeys if key in keyset}
     probs[i] = subarch.eval_prob(vals, subdims)
   if serial:
-    return probs[-1]
+    return rescale(probs[-1], arch[-1].pscale, arch_pscale)
   pscales = [subarch.pscale for subarch in arch]
-  prob, pscale = prod_rule(*tuple(probs), pscales=pscales)
+  prob, pscale = prod_rule(*tuple(probs), pscales=pscales, pscale=arch_pscale)
   return prob
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 882a48e1f8a5558d19d00622ccbf12daa81d7a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:34 +0000
Subject: [PATCH 090/126] fix: RF.set_tfun accepts the two-length tuple of
 functions it documents

---
 probayes/rf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index 2774ee5..ea442ee 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -284,7 +284,9 @@ class RF (Field, Prob):
       return
 
     # Non-callables are treated as LUD matrices
-    elif not callable(self._tfun): 
+    elif not callable(self._tfun) and \
+        not (isinstance(self._tfun, tuple) and \
+             all([callable(func) for func in self._tfun])):
         self._tfun = Prob(self._tfun, *args, **kwds)
         message = "Non-callable tran objects must be a triangular 2D Numpy array " + \
                   "of size corresponding to number of variables {}".format(self._nvars)
-- 
2.43.0


From b4fdb908714a9f845356436113f0d8d6f989ac59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:28 +0000
Subject: [PATCH 091/126] fix: Dependence applies a delta given when no default
 delta has been set

---
 probayes/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/field.py b/probayes/field.py
index ec1ba14..6c92dcf 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -533,7 +533,7 @@ class Field (NX_UNDIRECTED_GRAPH):
         return self.apply_delta(values, self._delta_type(delta))
       raise TypeError("Cannot apply delta without providing delta type {}".\
         format(self._delta_type))
-    bound = False if 'bound' not in self._delta_kwds \
+    bound = False if not self._delta_kwds or 'bound' not in self._delta_kwds \
            else self._delta_kwds['bound']
     vals = collections.OrderedDict(values)
     keys = delta._fields
-- 
2.43.0


From d64ab60e6044f23b3d18a5710d4dc762e2113070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:09 +0000
Subject: [PATCH 092/126] fix: SD.set_tran adopts the symmetry of the
 transition of its leafs or roots

---
 probayes/sd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/probayes/sd.py b/probayes/sd.py
index b126ef6..ab30dff 100644
--- a/probayes/sd.py
+++ b/probayes/sd.py
@@ -105,6 +105,7 @@ class SD (Dependence, RF):
     self._tran_obj = _tran
     self.set_prop_obj(self._tran_obj)
     self._tran = _tran.tran
+    self._sym_tran = _tran._sym_tran
     return self._tran
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 7d6fde1dc6d5e12747324fe4766ada363f0878ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:04 +0000
Subject: [PATCH 093/126] fix: SP.walk no longer draws and discards a sample
 beyond its stop

---
 probayes/sp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/probayes/sp.py b/probayes/sp.py
index 35bb45e..a52209b 100644
--- a/probayes/sp.py
+++ b/probayes/sp.py
@@ -288,10 +288,12 @@ class SP (SD):
     if stop is None: 
       return collections.deque([sample for sample in sampler])
     steps = collections.deque()
+    if stop <= 0:
+      return steps
     for sample in sampler:
+      steps.append(sample)
       if len(steps) >= stop:
         break
-      steps.append(sample)
     return steps
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 332db9f9c748dc6c34b06f2a43b9819970bb5b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:04 +0000
Subject: [PATCH 094/126] fix: hastings_scores combines proposal and target
 probabilities in one scale

---
 probayes/sp_utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/probayes/sp_utils.py b/probayes/sp_utils.py
index f2fe3d5..159b634 100644
--- a/probayes/sp_utils.py
+++ b/probayes/sp_utils.py
@@ -59,9 +59,8 @@ def hastings_scores(opqr, pscale=None):
       revp = rescale(revp.prob, pscale, 1.)
       if revp <= 0.:
         return 1.
-      return min(1., div_prob(succ.prob * prop, 
-                              pred.prob * revp, 
-                              pscale, pscale, pscale=1.))
+      ratio = div_prob(succ.prob, pred.prob, pscale, pscale, pscale=1.)
+      return min(1., ratio * prop / revp)
 
 #-------------------------------------------------------------------------------
 def hastings_thresh(*args, **kwds):
-- 
2.43.0


From 974d24aee6001fa25a0e15a15552296f5fedf89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:34 +0000
Subject: [PATCH 095/126] fix: lambdas taking only variable or keyword-only
 arguments receive them

---
 probayes/expression.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index 36ef5b0..39fc60e 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -6,6 +6,7 @@ not all expressions are functions.
 '''
 import types
 import collections
+import inspect
 import functools
 import sympy
 from probayes.vtypes import isscalar
@@ -400,7 +401,7 @@ class Expression:
     # Callables with neither order nor delta are straightforwards
     if not self.__order and not self.__delta:
       if self._islambda and hasattr(expr, '__code__') and \
-          not expr.__code__.co_argcount: # Allow argument-free lambdas
+          not inspect.signature(expr).parameters: # Allow argument-free lambdas
         assert not len(args), \
             "Unexpected entering of positional arguments: {}".format(args)
         return expr()
-- 
2.43.0


From 4c45426617341c9511143009f18bb1a6fca571d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:21 +0000
Subject: [PATCH 096/126] fix: a Field can be instantiated with the variables
 of another Field

---
 probayes/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/field.py b/probayes/field.py
index 6c92dcf..a970a6f 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -102,7 +102,7 @@ class Field (NX_UNDIRECTED_GRAPH):
     
     """
     self._leafs, self._stems, self._roots = self, None, None
-    if len(args) == 1 and isinstance(args[0], (Variable, set, tuple, list)):
+    if len(args) == 1 and isinstance(args[0], (Variable, Field, set, tuple, list)):
       args = args[0]
     else:
       args = tuple(args)
-- 
2.43.0


From bc46f0630afe63ea0788271cef1c3a7ef0f96074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:21 +0000
Subject: [PATCH 097/126] fix: write_serialised leaves the dims of the
 distributions it writes unchanged

---
 probayes/pd_utils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index 6bc2589..d8fe0a9 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -482,10 +482,7 @@ def write_serialised(path, serialised, aux_dict={}):
       group_write = hdf_write.create_group(dist_name)
       for key, val in dist_dict.items():
         if key == 'attrs':
-          attrs = dist_dict['attrs']
-          for k, v in attrs.items():
-            if v is None:
-              attrs[k] = 'None'
+          attrs = type(val)((k, 'None' if v is None else v) for k, v in val.items())
           group_write[key] = np.array(len(attrs))
           group_write[key].attrs.update(attrs)
           if isinstance(attrs, collections.OrderedDict):
-- 
2.43.0


From b44614908bb433178fd292eba1cb26bb905e44a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:21 +0000
Subject: [PATCH 098/126] fix: serialise refuses to overwrite a distribution by
 another of the same name

---
 probayes/pd_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index d8fe0a9..9916067 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -441,7 +441,10 @@ def serialise(*args):
   for arg in args:
     if not isinstance(arg, (PD, Distribution)):
       raise TypeError(f"Unrecogised type to serialise: {type(arg)}")
-    serialised.update(arg.serialise())
+    for dist_name, dist_dict in arg.serialise().items():
+      assert dist_name not in serialised, \
+        f"Cannot serialise more than one distribution named {dist_name}"
+      serialised.update({dist_name: dist_dict})
   return serialised
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 573d7fe6a1a0fa0123c0fe8988e51291b47a1d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:21 +0000
Subject: [PATCH 099/126] fix: bool_perm_freq adds the baseline frequency to
 its counts

---
 probayes/likelihoods.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/probayes/likelihoods.py b/probayes/likelihoods.py
index cad3fac..78087e5 100644
--- a/probayes/likelihoods.py
+++ b/probayes/likelihoods.py
@@ -68,6 +68,8 @@ def bool_perm_freq(bool_2d, col_labels=None, base_freq=0):
   sequences = bool_2d.astype(int).tolist()
   for sequence in sequences:
     counts[tuple(sequence)] += 1
+  if base_freq:
+    counts = counts + base_freq
   if col_labels is None:
     return counts
   assert len(col_labels) == cols, \
@@ -81,9 +83,7 @@ def bool_perm_freq(bool_2d, col_labels=None, base_freq=0):
     reshape[dim] = 2
     dims.update({lbl: dim})
     vals.update({lbl: np.array([False, True]).reshape(reshape)})
-  if base_freq:
-    base_freq += counts
-  rel_freq = counts / rows
+  rel_freq = counts / np.sum(counts)
 
   def _func_bool_perm_freq(spec=None, **kwds):
     assert 'dims' in kwds, \
-- 
2.43.0


From 1bc7f71a030351d679a8cb8d20c2f386e47a9497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:21 +0000
Subject: [PATCH 100/126] fix: product names fast-tracked distributions without
 a trailing delimiter

---
 probayes/pd_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index 9916067..df61be6 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -166,7 +166,8 @@ def product(*args, **kwds):
       cond_names = cond_names[0]
       prod_marg_name = ','.join(marg_names)
       prod_cond_name = ','.join(cond_names)
-      prod_name = '|'.join([prod_marg_name, prod_cond_name])
+      prod_name = prod_marg_name if not len(prod_cond_name) \
+                  else '|'.join([prod_marg_name, prod_cond_name])
       prod_vals = collections.OrderedDict()
       for i, val in enumerate(vals):
         areunitsetints = np.array([isunitsetint(_val) 
-- 
2.43.0


From 3dbb552ba0f7ddf3e7559cb55623c398e6fb928f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:21 +0000
Subject: [PATCH 101/126] fix: iterdict orders its keys as they first occur
 rather than by set iteration

---
 probayes/pd_utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index df61be6..cf44e2f 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -430,9 +430,8 @@ def iterdict(dicts):
   """ Converts a tuple/list of dicts to a dict of lists """
   return collections.OrderedDict(
       {key: [_dict[key] for _dict in dicts if key in _dict]
-             for key in functools.reduce(set.union, [set(_dict.keys()) 
-                                                     for _dict in dicts])}
-                                )
+             for key in collections.OrderedDict.fromkeys(
+                 key for _dict in dicts for key in _dict)})
 
 #-------------------------------------------------------------------------------
 def serialise(*args):
-- 
2.43.0


From 95b3001e7e0d47d095bf363bb2d0f4c4e6b14241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:21 +0000
Subject: [PATCH 102/126] fix: CF accepts lists of RFs and reports the type it
 refuses

---
 probayes/cf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/cf.py b/probayes/cf.py
index 7e361a2..10e50f9 100644
--- a/probayes/cf.py
+++ b/probayes/cf.py
@@ -25,14 +25,14 @@ def _to_rf(obj=None):
       if isinstance(subobj, RV):
         rvs += [subobj]
       elif isinstance(subobj, RF):
-        assert not obj.stems and not obj.roots, \
+        assert not subobj.stems and not subobj.roots, \
             "RFs must be rootless and stemless"
         rvs += subobj.varlist
       else:
         raise TypeError("Unexpected type: {}".format(type(subobj)))
     return RF(*tuple(rvs))
   else:
-    raise TypeError("Unexpected type: {}".format(type(subobj)))
+    raise TypeError("Unexpected type: {}".format(type(obj)))
 
 #-------------------------------------------------------------------------------
 #-------------------------------------------------------------------------------
-- 
2.43.0


From b4c168d8bfb0362c8cf19cdd2dbf226bedddaf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:21 +0000
Subject: [PATCH 103/126] fix: CondCov keeps conditional samples within the
 limits of the variable

---
 probayes/cond_cov.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/probayes/cond_cov.py b/probayes/cond_cov.py
index 1e7621f..e21da70 100644
--- a/probayes/cond_cov.py
+++ b/probayes/cond_cov.py
@@ -16,7 +16,6 @@ class CondCov:
   _stdv = None # Conditional standard deviations
   _coef = None # Regression coefficients
   _lims = None  # Recentered limits (Nx2 array)
-  _cdfs = None  # cdf-limits
 
 #-------------------------------------------------------------------------------
   def __init__(self, mean, cov, lims):
@@ -35,8 +34,6 @@ class CondCov:
       cov = np.delete(np.delete(self._cov, (i), axis=1), (i), axis=0)
       self._coef[i] = ru.dot(np.linalg.inv(cov))
       self._stdv[i] = np.sqrt(self._cov[i, i] - float(self._coef[i].dot(ll)))
-    self._cdfs = np.array([scipy.stats.norm.cdf(lim, loc=0., scale=self._stdv[i]) \
-                          for i, lim in enumerate(self._lims)])
 
 #-------------------------------------------------------------------------------
   def interp(self, *args, cond_pdf=False):
@@ -54,11 +51,12 @@ class CondCov:
         dmu[i] = arg - self._mean[i]
     assert idx is not None, "No variable specified for interpolation"
     dmu = np.delete(dmu, (idx), axis=0)
-    lims = self._cdfs[idx]
     number = list(args[idx])[0]
-    cdf = uniform(lims[0], lims[1], number)
-    mean = self._mean[idx] + float(self._coef[idx].dot(dmu))
+    offs = float(self._coef[idx].dot(dmu))
+    mean = self._mean[idx] + offs
     stdv = self._stdv[idx]
+    lims = scipy.stats.norm.cdf(self._lims[idx], loc=offs, scale=stdv)
+    cdf = uniform(lims[0], lims[1], number)
     vals = scipy.stats.norm.ppf(cdf, loc=mean, scale=stdv)
     if not cond_pdf:
       return vals
-- 
2.43.0


From 1c34e306f4a3b4b5cb4a11b99516db95eed2eeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:12 +0000
Subject: [PATCH 104/126] fix: multivariate scipy probabilities of a field
 follow the order and dimensions of its variables

---
 probayes/prob.py | 4 ++--
 probayes/rf.py   | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/probayes/prob.py b/probayes/prob.py
index 83098e7..a203933 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -346,10 +346,10 @@ class Prob (Expression, SympyProb):
       # Scipy
       if self.__isscipy:
         prob = self._partials['logp'] if self._logp else self._partials['prob']
-        if self.issmvar: # for mvar, convert dictionaries to arrays
+        if self.issmvar and isinstance(args[0], dict): # convert to arrays
           vals = list(args[0].values())
           if len(vals) == 1:
-            vals = np.array(vals)
+            vals = np.expand_dims(np.array(vals[0]), axis=-1)
           else:
             vals = np.stack(np.meshgrid(*tuple(vals), indexing='ij'), axis=-1)
           prob = prob(vals)
diff --git a/probayes/rf.py b/probayes/rf.py
index ea442ee..f8c5c8e 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -333,6 +333,12 @@ class RF (Field, Prob):
              self._partials['prob'](values)
       return prob
 
+    # Scipy orders variables along the last axis and squeezes singletons
+    if self.issmvar:
+      vals = np.broadcast_arrays(*tuple(values[key] for key in self._keylist))
+      prob = super().eval_prob(np.stack(vals, axis=-1))
+      return prob if not vals[0].ndim else np.reshape(prob, vals[0].shape)
+
     # Pass-dims is to replaced when passing Distributions()
     if self._passdims:
       return super().eval_prob(values, dims=dims)
-- 
2.43.0


From 9bc73545cafe7e904e57feee6a524da87d316d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:48 +0000
Subject: [PATCH 105/126] fix: conditional sampling follows the variable order
 of the field, not of the values given

---
 probayes/rf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index f8c5c8e..125209e 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -443,7 +443,9 @@ class RF (Field, Prob):
         return self._tfun(values, *args, **kwds)
 
     # Support variable sampling one-or-more at-a-time
-    succ_vals = collections.OrderedDict(values)
+    succ_vals = collections.OrderedDict([(key, values[key]) \
+                    for key in self._keylist if key in values])
+    succ_vals.update(values)
 
     # For conditional functions, iterate through keys
     assert isinstance(self._tfun, CF), "Callable conditionals must be CF type"
-- 
2.43.0


From 035c77985f8fa90f636972bbe23482ba7f753763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:13 +0000
Subject: [PATCH 106/126] fix: slice_by_keyvals treats absent dimensions of
 scalar values as scalar

---
 probayes/rf_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rf_utils.py b/probayes/rf_utils.py
index 96b97f1..45ead71 100644
--- a/probayes/rf_utils.py
+++ b/probayes/rf_utils.py
@@ -103,7 +103,7 @@ def slice_by_keyvals(spec, vals, prob, vals_dims=None, spec_dims=None):
     return dims
 
   # Default spec_dims and vals_dims if not given 
-  if spec_dims is None:
+  if not spec_dims:
     spec_dims = dims_from_vals(spec)
   else:
     assert set(spec.keys()) == set(spec_dims.keys()), \
-- 
2.43.0


From 0f526f8698c62f8efc34583ed23fe799ba6b2a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:16 +0000
Subject: [PATCH 107/126] fix: eval_vtype detects the type of sets with open
 limits

---
 probayes/vtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/vtypes.py b/probayes/vtypes.py
index db3b059..1587b42 100644
--- a/probayes/vtypes.py
+++ b/probayes/vtypes.py
@@ -34,7 +34,7 @@ def eval_vtype(vtype):
   if isinstance(vtype, (list, tuple)):
     if any([isinstance(_vtype, tuple) for _vtype in vtype]):
         vtype = np.concatenate([np.array(_vtype).reshape([1]) \
-                                for _vtype in vtype]).dtype
+                                for _vtype in vtype])
     else:
       vtype = np.array(vtype)
   if hasattr(vtype, 'dtype'):
-- 
2.43.0


From 66db7de20d08fd2e0bfa7478356802c397f82eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:33 +0000
Subject: [PATCH 108/126] fix: products of unspecified samples align
 probabilities by variable

---
 probayes/pd_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index cf44e2f..3efc7a9 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -186,6 +186,7 @@ def product(*args, **kwds):
                 prod_vals.update({key: {list(prod_vals[key])[0] + \
                                         list(val[key])[0]}})
       if marg_sets is not None:
+        probs = probs[:1] + [arg.redim(args[0].dims).prob for arg in args[1:]]
         prob, pscale = prod_rule(*tuple(probs), pscales=pscales, pscale=pscale)
         return PD(prod_name, prod_vals, dims=args[0].dims, prob=prob, pscale=pscale)
       else:
-- 
2.43.0


From 4095b19a1525141b6d535158c57383ec9a707df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:33 +0000
Subject: [PATCH 109/126] fix: product does not add the samples of a variable
 to those conditioned on

---
 probayes/pd_utils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index 3efc7a9..fa21758 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -241,8 +241,6 @@ def product(*args, **kwds):
       if key in val.keys():
         values = val[key]
         prod_areunitsetints[i] = isunitsetint(val[key])
-        if prod_areunitsetints[i]:
-          values = {0}
         break
     assert values is not None, "Values for key {} not found".format(key)
     prod_aresingleton[i] = issingleton(values)
@@ -252,9 +250,8 @@ def product(*args, **kwds):
       if prod_areunitsetints[i]:
         for val in vals:
           if key in val:
-            assert isunitsetint(val[key]), "Mismatch in variables {} vs {}".\
+            assert val[key] == prod_vals[key], "Mismatch in variables {} vs {}".\
                 format(prod_vals, val)
-            prod_vals.update({key: {list(prod_vals[key])[0] + list(val[key])[0]}})
   prod_newdims = np.array(np.logical_not(prod_aresingleton))
   dims_shared = False
   for arg in args:
-- 
2.43.0


From 89c97d0997c2bf8d49fd462051551fc9fcd95675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:36 +0000
Subject: [PATCH 110/126] fix: product refuses values of a variable given
 unspecified samples in any order

---
 probayes/pd_utils.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index fa21758..d0c4b22 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -245,13 +245,11 @@ def product(*args, **kwds):
     assert values is not None, "Values for key {} not found".format(key)
     prod_aresingleton[i] = issingleton(values)
     prod_vals.update({key: values})
-  if np.any(prod_areunitsetints):
-    for i, key in enumerate(prod_keys):
-      if prod_areunitsetints[i]:
-        for val in vals:
-          if key in val:
-            assert val[key] == prod_vals[key], "Mismatch in variables {} vs {}".\
-                format(prod_vals, val)
+  for i, key in enumerate(prod_keys):
+    for val in vals:
+      if key in val and (prod_areunitsetints[i] or isunitsetint(val[key])):
+        assert val[key] == prod_vals[key], "Mismatch in variables {} vs {}".\
+            format(prod_vals, val)
   prod_newdims = np.array(np.logical_not(prod_aresingleton))
   dims_shared = False
   for arg in args:
-- 
2.43.0


From 5c07cc40651336b930b6ecaa5661de703e6b1d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:57 +0000
Subject: [PATCH 111/126] fix: RF steps by scalar deltas when its transition is
 a covariance matrix

---
 probayes/rf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index 125209e..c440586 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -352,7 +352,7 @@ class RF (Field, Prob):
     if self._tfun is None or self._tfun.isscalar:
       return delta
     elif not self._tfun.callable:
-      delta = self._tfun().dot(np.array(delta, dtype=float))
+      delta = self._tfun().dot(np.ravel(np.array(delta, dtype=float)))
       return self._delta_type(*delta)
     else:
       delta = self._tfun(delta)
-- 
2.43.0


From 36ef05ba2bfc0f75ea74b5067a3610b226b60908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:19 +0000
Subject: [PATCH 112/126] fix: RF counts and renumbers axes of IID variables
 multiplied by its function

---
 probayes/rf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index c440586..d52a94c 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -561,8 +561,12 @@ class RF (Field, Prob):
 
     # Otherwise it is left to the user function to perform the iid product
     for key in iid:
-      vals[key] = {len(vals[key])}
+      vals[key] = {np.size(vals[key])}
       dims[key] = None
+    run_dims = sorted({dim for dim in dims.values() if dim is not None})
+    for key, dim in dims.items():
+      if dim is not None:
+        dims[key] = run_dims.index(dim)
 
     # Tidy up probability
     return PD(dist_name, vals, dims=dims, prob=prob, pscale=self._pscale)
-- 
2.43.0


From 341f8d361c9df8a57b4698771d3e8cc84c92c7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:54 +0000
Subject: [PATCH 113/126] fix: hastings_scores applies the inverse of the
 Hastings correction

---
 probayes/sp_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/sp_utils.py b/probayes/sp_utils.py
index 159b634..1b60d0f 100644
--- a/probayes/sp_utils.py
+++ b/probayes/sp_utils.py
@@ -58,9 +58,9 @@ def hastings_scores(opqr, pscale=None):
       assert isscalar(revp.prob), "Reverse proposal probability non-scalar"
       revp = rescale(revp.prob, pscale, 1.)
       if revp <= 0.:
-        return 1.
+        return 0.
       ratio = div_prob(succ.prob, pred.prob, pscale, pscale, pscale=1.)
-      return min(1., ratio * prop / revp)
+      return min(1., ratio * revp / prop)
 
 #-------------------------------------------------------------------------------
 def hastings_thresh(*args, **kwds):
-- 
2.43.0


From fd6204e7a3831b320258d090bee4f065cc91cf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:16 +0000
Subject: [PATCH 114/126] fix: RV.step without a transition denotes a unit
 conditional in every pscale

---
 probayes/rv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 893ae3d..b27aff6 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -539,7 +539,7 @@ class RV (Variable, Prob):
 
     # TODO - distinguish between probabilistic and non-probabistic outputs
     if cond is None:
-      cond = 1.
+      cond = rescale(1., 1., self._pscale)
       for val in vals.values():
         if isinstance(val, np.ndarray):
           cond = cond * np.ones(val.shape, dtype=float)
-- 
2.43.0


From 6061d850cfac0d8f7c8c03b8546e737f97a81f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:27 +0000
Subject: [PATCH 115/126] fix: RF.step with deterministic transitions denotes a
 unit conditional in every pscale

---
 probayes/rf.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index d52a94c..afeeffd 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -10,14 +10,13 @@ from probayes.prob import Prob
 from probayes.pd import PD
 from probayes.pd_utils import margcond_str
 from probayes.vtypes import isscalar, isunitsetint
-from probayes.pscales import iscomplex, prod_pscale
+from probayes.pscales import iscomplex, prod_pscale, rescale
 from probayes.rf_utils import rv_prod_rule, sample_cond_cov
 from probayes.expr import Expr
 from probayes.expression import Expression
 from probayes.cf import CF
 from probayes.cond_cov import CondCov
 
-DEFAULT_CONDITIONAL_PROBABILITY = {False: 1., True: 0.}
 
 #-------------------------------------------------------------------------------
 class RF (Field, Prob):
@@ -500,7 +499,7 @@ class RF (Field, Prob):
   def eval_tran(self, values, **kwargs):
     if 'cond' in kwargs:
       return kwargs['cond']
-    cond = DEFAULT_CONDITIONAL_PROBABILITY[iscomplex(self._pscale)]
+    cond = rescale(1., 1., self._pscale)
     reverse = False if 'reverse' not in kwargs else kwargs['reverse']
     if self._tran is None:
       if self._tfun is not None: # tfun without tran means no cond. prob.
-- 
2.43.0


From 70146772dddb7902d2239969570a653445dc8a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:33 +0000
Subject: [PATCH 116/126] fix: refuse to concatenate distributions whose other
 values differ

---
 probayes/pd_utils.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index d0c4b22..77d96b0 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -402,6 +402,14 @@ def summate(*args):
   sum_dim = sum_dims[0]
   sum_dims = args[0].dims
   cat_keys = [key for key in sum_keys if sum_dims[key] == sum_dim]
+  for key in sum_keys:
+    for arg in args[1:]:
+      assert arg.dims[key] == sum_dims[key], \
+          "Dimensions of {} not identical across distributions".format(key)
+      if key not in cat_keys:
+        same = arg[key] == sum_vals[key] if arg.singleton(key) else \
+               np.allclose(arg[key], sum_vals[key])
+        assert same, "Values of {} not identical across distributions".format(key)
   sum_prob = np.copy(probs[0])
   for i, val in enumerate(vals):
     if i == 0:
-- 
2.43.0


From ae24095cf1125353b98a444dd6251f50f9897bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:29 +0000
Subject: [PATCH 117/126] fix: share dimensions between all variables that do
 so in a product

---
 probayes/pd_utils.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index 77d96b0..8bd61d4 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -258,20 +258,17 @@ def product(*args, **kwds):
       dims_shared = True
 
   # Shared dimensions limit product dimensionality
+  shared_keys = {}
   if dims_shared:
-    seen_keys = set()
     for i, key in enumerate(prod_keys):
-      if prod_newdims[i] and key not in seen_keys:
-        for arg in args:
-          if key in arg.dims:
-            dim = arg.dims[key]
-            seen_keys.add(key)
-            for argkey, argdim in arg.dims.items():
-              seen_keys.add(argkey)
-              if argkey != key and argdim is not None:
-                if dim == argdim:
-                  index = prod_keys.index(argkey)
-                  prod_newdims[index] = False
+      for arg in args:
+        dim = arg.dims[key] if key in arg.dims else None
+        if dim is not None:
+          for argkey, argdim in arg.dims.items():
+            index = prod_keys.index(argkey)
+            if index > i and dim == argdim:
+              prod_newdims[index] = False
+              shared_keys.update({argkey: shared_keys.get(key, key)})
 
   prod_cdims = np.cumsum(prod_newdims)
   prod_ndims = prod_cdims[-1]
@@ -292,7 +289,8 @@ def product(*args, **kwds):
     else:
       values = prod_vals[key]
       re_shape = np.copy(ones_ndims)
-      dim = prod_cdims[i]-1
+      dim = prod_cdims[i]-1 if key not in shared_keys \
+            else prod_dims[shared_keys[key]]
       prod_dims.update({key: dim})
       re_shape[dim] = values.size
       prod_shape[dim] = values.size
-- 
2.43.0


From d51e4fbb098efd76ff22f532e28484a1f55556a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:27 +0000
Subject: [PATCH 118/126] fix: setters of a dependence without argument reset
 it rather than take the dictionary of fields for a field

---
 probayes/dependence.py | 2 +-
 probayes/sd.py         | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/probayes/dependence.py b/probayes/dependence.py
index 90bd09b..a5e6212 100644
--- a/probayes/dependence.py
+++ b/probayes/dependence.py
@@ -328,7 +328,7 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
 
 #-------------------------------------------------------------------------------
   def set_delta(self, delta=None, *args, **kwds):
-    _delta = self.leafs_roots(delta)
+    _delta = delta is not None and self.leafs_roots(delta)
     if not _delta:
       return super().set_delta(delta, *args, **kwds)
     self.set_prop_obj(_delta)
diff --git a/probayes/sd.py b/probayes/sd.py
index ab30dff..9d63c11 100644
--- a/probayes/sd.py
+++ b/probayes/sd.py
@@ -89,7 +89,7 @@ class SD (Dependence, RF):
 
 #-------------------------------------------------------------------------------
   def set_prop(self, prop=None, *args, **kwds):
-    _prop = self.leafs_roots(prop)
+    _prop = prop is not None and self.leafs_roots(prop)
     if not _prop:
       return super().set_prop(prop, *args, **kwds)
     self.set_prop_obj(_prop)
@@ -98,7 +98,7 @@ class SD (Dependence, RF):
 
 #-------------------------------------------------------------------------------
   def set_tran(self, tran=None, *args, **kwds):
-    _tran = self.leafs_roots(tran)
+    _tran = tran is not None and self.leafs_roots(tran)
     if not _tran:
       self._tran_obj = self
       return super().set_tran(tran, *args, **kwds)
@@ -110,7 +110,7 @@ class SD (Dependence, RF):
 
 #-------------------------------------------------------------------------------
   def set_tfun(self, tfun=None, *args, **kwds):
-    _tfun = self.leafs_roots(tfun)
+    _tfun = tfun is not None and self.leafs_roots(tfun)
     if not _tfun:
       self._tran_obj = self
       return super().set_tfun(tfun, *args, **kwds)
-- 
2.43.0


From e1ae10a06a19c71866cf15ac20fc9e2d746f37f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:27 +0000
Subject: [PATCH 119/126] fix: setters of a dependence accept arrays, which
 cannot be compared with a field

---
 probayes/dependence.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/dependence.py b/probayes/dependence.py
index a5e6212..94bb29a 100644
--- a/probayes/dependence.py
+++ b/probayes/dependence.py
@@ -318,7 +318,8 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
     """ Returns a proxy object from _subfields. """
     if spec is None:
       return self._subfields
-    if not isinstance(spec, str) and spec not in self._subfields.values(): 
+    if not isinstance(spec, str) and \
+        not any(spec is subfield for subfield in self._subfields.values()):
       return False
     if isinstance(spec, str):
       assert spec in self._subfields, \
-- 
2.43.0


From 0ce02471dfe2272b6b57be57972c42d492ebd34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:46 +0000
Subject: [PATCH 120/126] fix: two-way transitions over a variable with its own
 keep the way back

---
 probayes/sd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/sd.py b/probayes/sd.py
index 9d63c11..139b8ee 100644
--- a/probayes/sd.py
+++ b/probayes/sd.py
@@ -277,7 +277,7 @@ class SD (Dependence, RF):
       prop = self.step(vals, **kwds)
 
     # Evaluate reverse proposal if transition function not symmetric
-    if not self._sym_tran and not self._unit_tran:
+    if not self._sym_tran and not (self._unit_tran and self._tran is None):
       revp = self.reval_tran(prop)
 
     # Extract values evaluating probability
-- 
2.43.0


From 887c62d82a792cf9a82169ab8fb2468896fcc192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:46 +0000
Subject: [PATCH 121/126] fix: transitions of a single variable are stated in
 the scale of the field

---
 probayes/rf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index afeeffd..8481f56 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -506,7 +506,8 @@ class RF (Field, Prob):
         return cond
       rvs = self._varlist
       if len(rvs) == 1 and rvs[0]._tran is not None:
-        return rvs[0].eval_tran(values, **kwargs)
+        return rescale(rvs[0].eval_tran(values, **kwargs),
+                       rvs[0].pscale, self._pscale)
       pred_vals = dict()
       succ_vals = dict()
       for key_, val in values.items():
-- 
2.43.0


From 51767b1b856967998942f5a7aa900fd5540124f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:46 +0000
Subject: [PATCH 122/126] fix: every name of a joint key must be a variable of
 the field

---
 probayes/field.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/probayes/field.py b/probayes/field.py
index a970a6f..84eb960 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -336,9 +336,10 @@ class Field (NX_UNDIRECTED_GRAPH):
       else:
         seen_keys.append(key)
       if not pass_all:
-        assert seen_keys[-1] in self._keyset, \
-            "Unrecognised key {} among available Variables {}".format(
-                seen_keys[-1], self._keyset)
+        for subkey in key.split(','):
+          assert subkey in self._keyset, \
+              "Unrecognised key {} among available Variables {}".format(
+                  subkey, self._keyset)
 
     # Default values
     def_val = None
-- 
2.43.0


From 2d063e2cb408a39ff1bca4a837623b7c5959551a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:01 +0000
Subject: [PATCH 123/126] fix: an indexed call of a Func that fails leaves no
 index behind for the next call

---
 probayes/func.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/probayes/func.py b/probayes/func.py
index 9c2eb87..2d4a918 100644
--- a/probayes/func.py
+++ b/probayes/func.py
@@ -253,10 +253,10 @@ class Func:
       return self._call_scipy(*args, **kwds)
 
     # Check for indexing and reset if necessary
-    func = self._func
-    if self.__index is not None:
-      func = func[self.__index]
-      self.__index = None
+    func, index = self._func, self.__index
+    self.__index = None
+    if index is not None:
+      func = func[index]
 
     # Non-callables
     if not self.__callable:
-- 
2.43.0


From 3d81cb2a36a1d616f16eb2530996da623077ef49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:01 +0000
Subject: [PATCH 124/126] fix: a delta set as a function is subject to the
 bound asked for

---
 probayes/variable.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 5082eb2..e324849 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -668,8 +668,9 @@ class Variable (Icon):
     delta = self._delta if delta is None else delta
     if isinstance(delta, Expression):
       if delta.callable:
-        return delta(values)
-      delta = delta()
+        vals = delta(values)
+      else:
+        delta = delta()
     elif self._vtype not in VTYPES[bool]:
       if isinstance(delta, (list, tuple)):
         delta = self.eval_delta(delta)
@@ -678,8 +679,10 @@ class Variable (Icon):
     if delta is None:
       return values
 
-    # Apply the delta, treating bool as a special case
-    if self._vtype in VTYPES[bool]:
+    # Apply the delta unless by function, treating bool as a special case
+    if isinstance(delta, Expression):
+      pass
+    elif self._vtype in VTYPES[bool]:
       orand = isinstance(delta, tuple)
       urand = isinstance(delta, list)
       if orand or urand:
-- 
2.43.0


From 65dcfc1cecf70bff931b231d218ca09622c3e2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:01 +0000
Subject: [PATCH 125/126] fix: deltas of a field are scaled by the present
 lengths of its variables

---
 probayes/field.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/probayes/field.py b/probayes/field.py
index 84eb960..743dc35 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -255,6 +255,7 @@ class Field (NX_UNDIRECTED_GRAPH):
       self._delta_kwds.update({'bound': False})
     scale = self._delta_kwds['scale']
     bound = self._delta_kwds['bound']
+    self.eval_length() # Variables may have changed since last evaluated
 
     # Handle deltas and dictionaries
     if isinstance(self._delta, dict):
-- 
2.43.0


From a687e0e472bcc3024c1d1bb40937896d35b1d61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:37 +0000
Subject: [PATCH 126/126] fix: a distribution looked up by keys numbers its
 dimensions consecutively

---
 probayes/distribution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/probayes/distribution.py b/probayes/distribution.py
index 6c0da9e..d6c2fc5 100644
--- a/probayes/distribution.py
+++ b/probayes/distribution.py
@@ -219,6 +219,9 @@ class Distribution (NamedDict):
           keylist.append(key)
           vals.update({key: self[key]})
           dims.update({key: self._dims[key]})
+      axes = sorted({dim for dim in dims.values() if dim is not None})
+      for key, dim in dims.items():
+        dims[key] = None if dim is None else axes.index(dim)
       return Distribution(','.join(keylist), vals, dims=dims)
     seen_keys = set()
     for i, key in enumerate(self._keylist):
-- 
2.43.0

