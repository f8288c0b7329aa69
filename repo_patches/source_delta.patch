From 694610fb5a4c4e3792aba2a9aeeac4c104c0649b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:53 +0000
Subject: [PATCH 01/56] fix: geometric: format the message of the
 out-of-support ValueError

---
 src/primitives/geometric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/geometric.py b/src/primitives/geometric.py
index 28f1975..5494ef7 100644
--- a/src/primitives/geometric.py
+++ b/src/primitives/geometric.py
@@ -48,7 +48,7 @@ class Geometric(DistributionGpm):
         DistributionGpm.incorporate(self, rowid, observation, inputs)
         x = observation[self.outputs[0]]
         if not (x % 1 == 0 and x >= 0):
-            raise ValueError('Invalid Geometric: %s') % str(x)
+            raise ValueError('Invalid Geometric: %s' % str(x))
         self.N += 1
         self.sum_x += x
         self.data[rowid] = x
-- 
2.43.0


From 6726cf7a19a8e7ebc796c9de13902f03b23f12b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:16 +0000
Subject: [PATCH 02/56] fix: Dim.set_hypers: rebuild the auxiliary model so
 later clusters use the new hypers

---
 src/mixtures/dim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mixtures/dim.py b/src/mixtures/dim.py
index 8049b73..c0781db 100644
--- a/src/mixtures/dim.py
+++ b/src/mixtures/dim.py
@@ -208,6 +208,7 @@ class Dim(CGpm):
         self.hypers = hypers
         for model in self.clusters.values():
             model.set_hypers(hypers)
+        self.aux_model = self.create_aux_model()
 
     def get_suffstats(self):
         if len(self.clusters) == 0:
-- 
2.43.0


From 32f8715d42e9fde31922d5ace13a6f9c6a749665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:01 +0000
Subject: [PATCH 03/56] fix: logp_crp_fresh: do not floor an integer
 concentration when splitting it over auxiliary tables

---
 src/utils/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/general.py b/src/utils/general.py
index d81a96d..3ac584e 100644
--- a/src/utils/general.py
+++ b/src/utils/general.py
@@ -116,7 +116,7 @@ def logp_crp_gibbs(Nk, Z, i, alpha, m):
 def logp_crp_fresh(N, Nk, alpha, m=1):
     """Compute the CRP probabilities for a fresh customer i=N+1, with
     table counts Nk, total customers N=sum(Nk), and m auxiliary tables."""
-    log_crp_numer = np.log(Nk + [alpha/m]*m)
+    log_crp_numer = np.log(Nk + [alpha/float(m)]*m)
     logp_crp_denom = log(N + alpha)
     return log_crp_numer - logp_crp_denom
 
-- 
2.43.0


From 711247b6795256abec0f70491b3ea3acd491c17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:46 +0000
Subject: [PATCH 04/56] fix: View.incorporate: withdraw the row when a dim
 rejects its value

---
 src/mixtures/view.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index 765026f..fd8217b 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -162,11 +162,16 @@ class View(CGpm):
         """
         k = observation.get(self.outputs[0], 0)
         self.crp.incorporate(rowid, {self.outputs[0]: k}, {-1: 0})
-        for d in self.dims:
-            self.dims[d].incorporate(
-                rowid,
-                observation={d: observation[d]},
-                inputs=self._get_input_values(rowid, self.dims[d], k))
+        try:
+            for d in self.dims:
+                self.dims[d].incorporate(
+                    rowid,
+                    observation={d: observation[d]},
+                    inputs=self._get_input_values(rowid, self.dims[d], k))
+        except Exception:
+            # Some dim rejected its value: withdraw the row from the others.
+            self._withdraw_row(rowid, k)
+            raise
         # If the user did not specify a cluster assignment, sample one.
         if self.outputs[0] not in observation:
             self.transition_rows(rows=[rowid])
@@ -182,6 +187,16 @@ class View(CGpm):
             for dim in self.dims.itervalues():
                 del dim.clusters[k]     # XXX Abstract me!
 
+    def _withdraw_row(self, rowid, k):
+        # Undo a partially completed incorporate of rowid into cluster k.
+        for dim in self.dims.itervalues():
+            if rowid in dim.Zr or rowid in dim.Zi:
+                dim.unincorporate(rowid)
+        self.crp.unincorporate(rowid)
+        if k not in self.Nk():
+            for dim in self.dims.itervalues():
+                dim.clusters.pop(k, None)
+
     # XXX Major hack to force values of NaN cells in incorporated rowids.
     def force_cell(self, rowid, observation):
         k = self.Zr(rowid)
-- 
2.43.0


From 29c3a8ce9495cf3a40f3ddd26a63d6ef05bdb73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:07 +0000
Subject: [PATCH 05/56] fix: State.incorporate: withdraw the row when a view
 rejects its values

---
 src/crosscat/state.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 527eb62..7116b0d 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -279,12 +279,22 @@ class State(CGpm):
         if self.hypothetical(rowid):
             rowid = self.n_rows()-1
         # Tell the views.
-        for v in self.views:
-            query_v = {d: self.X[d][rowid] for d in self.views[v].dims}
-            crp_v = self.views[v].outputs[0]
-            cluster_v = {crp_v: observation[crp_v]} if crp_v in observation\
-                else {}
-            self.views[v].incorporate(rowid, gu.merged(cluster_v, query_v))
+        incorporated = []
+        try:
+            for v in self.views:
+                query_v = {d: self.X[d][rowid] for d in self.views[v].dims}
+                crp_v = self.views[v].outputs[0]
+                cluster_v = {crp_v: observation[crp_v]}\
+                    if crp_v in observation else {}
+                self.views[v].incorporate(rowid, gu.merged(cluster_v, query_v))
+                incorporated.append(v)
+        except Exception:
+            # Some view rejected its values: withdraw the row everywhere.
+            for v in incorporated:
+                self.views[v].unincorporate(rowid)
+            for c in self.outputs:
+                self.X[c].pop()
+            raise
         # Validate.
         self._check_partitions()
 
-- 
2.43.0


From 648f1f532b99b14e897cc98bef664a77dff8ec1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:29 +0000
Subject: [PATCH 06/56] fix: State.incorporate_dim: change nothing when the new
 dim is rejected

---
 src/crosscat/state.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 7116b0d..33ff11f 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -203,19 +203,17 @@ class State(CGpm):
             raise ValueError(
                 'Cannot incorporate dim with inputs: %s.'
                 % inputs)
-        # Append new output to outputs.
-        col = outputs[0]
-        self.X[col] = T
-        self.set_outputs(self.outputs + [col])
         # If v unspecified then transition the col.
+        col = outputs[0]
         transition = [col] if v is None else []
+        if transition:
+            self._validate_transition_dims()
         # Determine correct view.
         v_add = 0 if v is None else v
         if v_add in self.views:
             view = self.views[v_add]
         else:
             view = View(self.X, outputs=[self.crp_id_view + v_add], rng=self.rng)
-            self._append_view(view, v_add)
         # Create the dimension.
         # XXX Does not handle conditional models; consider moving to view?
         D = Dim(
@@ -225,8 +223,18 @@ class State(CGpm):
             distargs=distargs,
             rng=self.rng
         )
-        D.transition_hyper_grids(self.X[col])
-        view.incorporate_dim(D)
+        D.transition_hyper_grids(T)
+        # Load the data, which is the last step that may reject T.
+        self.X[col] = T
+        try:
+            view.incorporate_dim(D)
+        except Exception:
+            del self.X[col]
+            raise
+        # Append new output to outputs.
+        self.set_outputs(self.outputs + [col])
+        if v_add not in self.views:
+            self.views[v_add] = view
         self.crp.incorporate(col, {self.crp_id: v_add}, {-1:0})
         # Transition.
         self.transition_dims(cols=transition)
@@ -1057,8 +1065,8 @@ class State(CGpm):
             return dim
         return copy.deepcopy(dim)
 
-    def _gibbs_transition_dim(self, col, m):
-        """Gibbs on col assignment to Views, with m auxiliary parameters"""
+    def _validate_transition_dims(self):
+        """Raise if the columns of this State may not be transitioned."""
         # XXX Disable col transitions if \exists conditional model anywhere.
         if any(d.is_conditional() for d in self.dims()):
             raise ValueError(
@@ -1068,6 +1076,10 @@ class State(CGpm):
                 'Cannot transition columns with dependence constraint, '
                 'use State.transition_lovecat.')
 
+    def _gibbs_transition_dim(self, col, m):
+        """Gibbs on col assignment to Views, with m auxiliary parameters"""
+        self._validate_transition_dims()
+
         # Current dim object and view index.
         dim = self.dim_for(col)
 
-- 
2.43.0


From 96f5e35c99edcb7ca1e41d30308c8ccac95197cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:29 +0000
Subject: [PATCH 07/56] fix: View.update_cctype: keep the old dim when its data
 rejects the cctype

---
 src/mixtures/view.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index fd8217b..7a8b1f3 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -232,7 +232,12 @@ class View(CGpm):
             outputs=[col], inputs=[self.outputs[0]]+inputs,
             cctype=cctype, distargs=distargs_dim, rng=self.rng)
         self.unincorporate_dim(D_old)
-        self.incorporate_dim(D_new)
+        try:
+            self.incorporate_dim(D_new)
+        except Exception:
+            # The data is invalid for the new cctype: restore the old dim.
+            self.incorporate_dim(D_old, reassign=False)
+            raise
 
     # --------------------------------------------------------------------------
     # Inference
-- 
2.43.0


From 52d19e14df6742608481b0594d494ac88a2922a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:29 +0000
Subject: [PATCH 08/56] fix: force_cell: restore the missing cells when a value
 is rejected

---
 src/crosscat/state.py | 15 ++++++++++++---
 src/mixtures/view.py  |  7 ++++++-
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 33ff11f..5ae6b90 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -333,9 +333,18 @@ class State(CGpm):
             self.X[col][rowid] = value
         queries = vu.partition_list(
             {c: self.Zv(c) for c in observation}, observation)
-        for view_id, view_variables in queries.iteritems():
-            observation_v = {c: observation[c] for c in view_variables}
-            self.views[view_id].force_cell(rowid, observation_v)
+        try:
+            for view_id, view_variables in queries.iteritems():
+                observation_v = {c: observation[c] for c in view_variables}
+                self.views[view_id].force_cell(rowid, observation_v)
+        except Exception:
+            # Some view rejected its values: make all the cells NaN again.
+            for view_id, view_variables in queries.iteritems():
+                for c in view_variables:
+                    self.X[c][rowid] = float('nan')
+                self.views[view_id].force_cell(
+                    rowid, {c: float('nan') for c in view_variables})
+            raise
 
     # --------------------------------------------------------------------------
     # Schema updates.
diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index 7a8b1f3..f51887e 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -203,7 +203,12 @@ class View(CGpm):
         for d in observation:
             self.dims[d].unincorporate(rowid)
             inputs = self._get_input_values(rowid, self.dims[d], k)
-            self.dims[d].incorporate(rowid, {d: observation[d]}, inputs)
+            try:
+                self.dims[d].incorporate(rowid, {d: observation[d]}, inputs)
+            except Exception:
+                # The value was rejected: restore the missing cell.
+                self.dims[d].incorporate(rowid, {d: float('nan')}, inputs)
+                raise
 
     # --------------------------------------------------------------------------
     # Update schema.
-- 
2.43.0


From 1793cf8d4fa2b16181f8f05e3489def2fd3ef265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:45 +0000
Subject: [PATCH 09/56] fix: State._gibbs_transition_dim: score views in the
 order of their crp tables

---
 src/crosscat/state.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 5ae6b90..342a698 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -1092,18 +1092,21 @@ class State(CGpm):
         # Current dim object and view index.
         dim = self.dim_for(col)
 
+        # Identities of the existing and auxiliary views, existing views first.
+        tables = self.crp.clusters[0].gibbs_tables(col, m=m)
+        t_views = tables[:len(self.views)]
+
         # Compute logp of the dim under existing views.
         dims_proposal = [
-            self._dim_get_proposal(self.views[view], dim)
-            for view in self.views
+            self._dim_get_proposal(self.views[t], dim)
+            for t in t_views
         ]
         logp_data = [
-            self._dim_get_data_logp(self.views[view], dim)
-            for (view, dim) in zip(self.views, dims_proposal)
+            self._dim_get_data_logp(self.views[t], dim)
+            for (t, dim) in zip(t_views, dims_proposal)
         ]
 
         # Compute logp of the dim under auxiliary views.
-        tables = self.crp.clusters[0].gibbs_tables(col, m=m)
         t_aux = tables[len(self.views):]
         dims_proposal_aux = [self._dim_get_proposal(None, dim) for _t in t_aux]
         views_proposal_aux = [
@@ -1129,7 +1132,7 @@ class State(CGpm):
         # Enforce independence constraints.
         avoid = [a for p in self.Ci if col in p for a in p if a != col]
         for a in avoid:
-            index = self.views.keys().index(self.Zv(a))
+            index = tables.index(self.Zv(a))
             logp_views[index] = float('-inf')
 
         # Draw a new view.
-- 
2.43.0


From 5a415def302a6fcf10b96d5628047a3d997a5ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:35 +0000
Subject: [PATCH 10/56] fix: State: allow querying the outputs of hooked cgpms
 for an observed row

---
 src/crosscat/state.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 342a698..8ecb766 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -471,6 +471,10 @@ class State(CGpm):
         }
         return gu.merged(constraints, data)
 
+    def _is_hooked(self, q):
+        # Is q an output of a hooked cgpm, and so not stored in the dataset?
+        return any(q in c.outputs for c in self.hooked_cgpms.itervalues())
+
     def _validate_cgpm_query(self, rowid, targets, constraints):
         # Is the rowid fresh?
         fresh = self.hypothetical(rowid)
@@ -485,7 +489,9 @@ class State(CGpm):
         # https://github.com/probcomp/cgpm/issues/116
         if not fresh \
                 and not simulate \
-                and any(not np.isnan(self.X[q][rowid]) for q in targets):
+                and any(
+                    not np.isnan(self.X[q][rowid])
+                    for q in targets if not self._is_hooked(q)):
             raise ValueError('Cannot constrain observed cell.')
         # Check if the constraints is valid.
         if constraints:
-- 
2.43.0


From ebf74b7573ba0725230114fcc3cde4ead5815624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:57 +0000
Subject: [PATCH 11/56] fix: State._populate_constraints: include the first
 column

---
 src/crosscat/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 8ecb766..cacce95 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -462,7 +462,7 @@ class State(CGpm):
         # Retrieve all values for this rowid not in targets or constraints.
         data = {
             c: self.X[c][rowid]
-            for c in self.outputs[1:]
+            for c in self.outputs
             if not any([
                 c in targets,
                 c in constraints,
-- 
2.43.0


From 7f1f0b2bcecf0e515eeab21026adb2fe65215717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:07 +0000
Subject: [PATCH 12/56] fix: State: a state built with conditional columns is
 composite from the start

---
 src/crosscat/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index cacce95..5463ce9 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -179,7 +179,7 @@ class State(CGpm):
         # Does the state have any conditional GPMs? Conditional GPMs come from
         # - a hooked cgpm;
         # - a conditional dim.
-        self._composite = False
+        self._update_is_composite()
 
     # --------------------------------------------------------------------------
     # Observe
-- 
2.43.0


From 7d99192646989b4cf21685ae11319570170089d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:59 +0000
Subject: [PATCH 13/56] fix: simulate: return samples in the order their
 clusters were drawn, so they are independent across views

---
 src/crosscat/sampling.py |  9 +++++----
 src/mixtures/view.py     | 16 +++++++++-------
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/crosscat/sampling.py b/src/crosscat/sampling.py
index dcbb7d5..9571034 100644
--- a/src/crosscat/sampling.py
+++ b/src/crosscat/sampling.py
@@ -20,8 +20,6 @@ cgpm.crosscat, avoiding overhead of recursive implementations using the
 importance network on the sub-cgpms that comprise cgpm.crosscat.State.
 '''
 
-from itertools import chain
-
 import numpy as np
 
 from cgpm.primitives.crp import Crp
@@ -95,8 +93,11 @@ def view_simulate(view, rowid, targets, constraints, N):
     lp_cluster = np.add(lp_crp, lp_constraints)
     ks = log_pflip(lp_cluster, array=K, size=N, rng=view.rng)
     counts = {k:n for k,n in enumerate(np.bincount(ks)) if n > 0}
-    samples = (_simulate_row(view, targets, k, counts[k]) for k in counts)
-    return chain.from_iterable(samples)
+    samples = {k: _simulate_row(view, targets, k, counts[k]) for k in counts}
+    # Return the samples in the order their clusters were drawn. Grouping them
+    # by cluster would make samples from different views, which are zipped by
+    # the caller, dependent.
+    return [next(samples[k]) for k in ks]
 
 
 def _logpdf_row(view, targets, cluster):
diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index f51887e..b6aa698 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -14,8 +14,6 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
-import itertools
-
 from math import isnan
 
 import numpy as np
@@ -382,14 +380,18 @@ class View(CGpm):
         counts = {k:n for k, n in enumerate(np.bincount(Ks)) if n > 0}
         # Add the cluster assignment to the constraints and sample the rest.
         constr3 = {k: merged(constraints, {self.outputs[0]: k}) for k in counts}
-        samples = [network.simulate(rowid, targets, constr3[k], inputs, counts[k])
-            for k in counts]
+        samples = {
+            k: iter(network.simulate(rowid, targets, constr3[k], inputs, n))
+            for k, n in counts.iteritems()
+        }
+        # Return the samples in the order their clusters were drawn, so that
+        # each one is distributed according to the mixture.
+        result = [next(samples[k]) for k in Ks]
         # If cluster assignments are exposed, append them to the samples.
         if exposed:
-            samples = [[merged(l, {self.outputs[0]: k}) for l in s]
-                for s, k in zip(samples, counts)]
+            result = [merged(l, {self.outputs[0]: int(k)})
+                for l, k in zip(result, Ks)]
         # Return 1 sample if N is None, otherwise a list.
-        result = list(itertools.chain.from_iterable(samples))
         return result[0] if unwrap_result else result
 
 
-- 
2.43.0


From f9582d07911f8582a333210544a95260a475d902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:55 +0000
Subject: [PATCH 14/56] fix: View.force_cell: update conditional dims whose
 inputs were forced

---
 src/mixtures/view.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index b6aa698..a7dc4f6 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -207,6 +207,14 @@ class View(CGpm):
                 # The value was rejected: restore the missing cell.
                 self.dims[d].incorporate(rowid, {d: float('nan')}, inputs)
                 raise
+        # Conditional dims now see the forced values of their inputs.
+        for d, dim in self.dims.iteritems():
+            if d not in observation and set(dim.inputs[1:]) & set(observation):
+                dim.unincorporate(rowid)
+                dim.incorporate(
+                    rowid,
+                    observation={d: self.X[d][rowid]},
+                    inputs=self._get_input_values(rowid, dim, k))
 
     # --------------------------------------------------------------------------
     # Update schema.
-- 
2.43.0


From c372a3710b64165d1abc0639a54b0b20b9ce2117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:55 +0000
Subject: [PATCH 15/56] fix: Dim.transition_hyper_grids: support columns
 without observed cells

---
 src/mixtures/dim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mixtures/dim.py b/src/mixtures/dim.py
index c0781db..099d270 100644
--- a/src/mixtures/dim.py
+++ b/src/mixtures/dim.py
@@ -175,8 +175,10 @@ class Dim(CGpm):
 
     def transition_hyper_grids(self, X, n_grid=30):
         """Transitions hyperparameter grids using empirical Bayes."""
+        # Without observed cells, use the grids of a single unit observation.
+        X_observed = [x for x in X if not math.isnan(x)] or [1.]
         self.hyper_grids = self.model.construct_hyper_grids(
-            [x for x in X if not math.isnan(x)], n_grid=n_grid)
+            X_observed, n_grid=n_grid)
         # Only transition the hypers if previously uninstantiated.
         if not self.hypers:
             for h in self.hyper_grids:
-- 
2.43.0


From 9207d1abf699e49398bae7d0069bb7c96ba81ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:39 +0000
Subject: [PATCH 16/56] fix: State queries: reject unknown variables on the
 composed path too

---
 src/crosscat/state.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 5463ce9..02df926 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -483,6 +483,14 @@ class State(CGpm):
         # Disallow duplicated target cols.
         if simulate and len(set(targets)) != len(targets):
             raise ValueError('Columns in targets must be unique.')
+        # Disallow unknown variables, which a composite network would ignore.
+        cgpms = self.build_cgpms()
+        variables = set(v for c in cgpms for v in c.outputs)
+        variables_all = variables.union(v for c in cgpms for v in c.inputs)
+        if not (variables.issuperset(targets)
+                and variables_all.issuperset(constraints or [])):
+            raise ValueError(
+                'Unknown variables: %s, %s' % (targets, constraints))
         # Disallow query constraining observed cells.
         # XXX Only disallow logpdf constraints; simulate is permitted for
         # INFER EXPLICIT PREDICT through BQL to work. Refer to
-- 
2.43.0


From 0bfd8af538d2729603916949b08cbd23625d951c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:21 +0000
Subject: [PATCH 17/56] fix: LinearRegression.to_metadata: store the regression
 prior mu and V

---
 src/regressions/linreg.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/regressions/linreg.py b/src/regressions/linreg.py
index 5974819..5d0ad9f 100644
--- a/src/regressions/linreg.py
+++ b/src/regressions/linreg.py
@@ -343,7 +343,10 @@ class LinearRegression(CGpm):
         metadata['N'] = self.N
         metadata['data'] = {'x': self.data.x, 'Y': self.data.Y}
         metadata['distargs'] = self.get_distargs()
-        metadata['hypers'] = self.get_hypers()
+        metadata['hypers'] = dict(
+            self.get_hypers(),
+            mu=np.asarray(self.mu).tolist(),
+            V=np.asarray(self.V).tolist())
         metadata['factory'] = ('cgpm.regressions.linreg', 'LinearRegression')
         return metadata
 
-- 
2.43.0


From 3741165242b7e1bcdcb195a8ced125a76768bbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:05 +0000
Subject: [PATCH 18/56] fix: State.dependence_probability: composed columns
 depend on their own model and ancestors

---
 src/crosscat/state.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 02df926..a358a71 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -600,17 +600,18 @@ class State(CGpm):
         if any(col0 in c.outputs and col1 in c.outputs for c in cgpms):
             return 1.
         # Use the BayesBall algorithm on the cgpm network.
-        ancestors0 = retrieve_ancestors(cgpms, col0) if col0 not in Zv\
+        ancestors0 = [col0] + retrieve_ancestors(cgpms, col0) if col0 not in Zv\
             else [c for c in Zv if Zv[c]==Zv[col0]]
-        ancestors1 = retrieve_ancestors(cgpms, col1) if col1 not in Zv\
+        ancestors1 = [col1] + retrieve_ancestors(cgpms, col1) if col1 not in Zv\
             else [c for c in Zv if Zv[c]==Zv[col1]]
         # Direct common ancestor implies dependent.
         if set.intersection(set(ancestors0), set(ancestors1)):
             return 1.
-        # Dependent ancestors via variable partition at root, Zv.
-        cc_ancestors0 = [Zv[i] for i in ancestors0 if i in Zv]
-        cc_ancestors1 = [Zv[i] for i in ancestors1 if i in Zv]
-        if set.intersection(set(cc_ancestors0), set(cc_ancestors1)):
+        # Dependent ancestors via outputs of a common cgpm (e.g. a view).
+        v_to_c = retrieve_variable_to_cgpm(cgpms)
+        c_ancestors0 = [v_to_c[i] for i in ancestors0 if i in v_to_c]
+        c_ancestors1 = [v_to_c[i] for i in ancestors1 if i in v_to_c]
+        if set.intersection(set(c_ancestors0), set(c_ancestors1)):
             return 1.
         # No dependence.
         return 0.
-- 
2.43.0


From e6127bf64c77da2cfb9030e7d332dee0c353af37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:05 +0000
Subject: [PATCH 19/56] fix: State.relevance_probability: leave the state
 unchanged when a hypothetical row is rejected

---
 src/crosscat/state.py | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index a358a71..40524e5 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -650,24 +650,27 @@ class State(CGpm):
             [{d: h.get(d, np.nan) for d in view.dims} for h in hypotheticals]
         ) if hypotheticals else []
         # Produce hypothetical rowids.
-        rowid_hypothetical = range(
-            self.n_rows(), self.n_rows() + len(hypotheticals))
-        # Incorporate hypothetical rows.
-        for rowid, query in zip(rowid_hypothetical, hypotheticals):
-            for d in view.dims:
-                self.X[d].append(query[d])
-            view.incorporate(rowid, query)
-        # Compute the relevance probability.
-        rowid_all = rowid_query + rowid_hypothetical
-        relevance = all(
-            view.Zr(rowid_target) == view.Zr(rq)
-            for rq in rowid_all
-        ) if rowid_all else 0
-        # Unincorporate hypothetical rows.
-        for rowid in reversed(rowid_hypothetical):
+        n_rows = self.n_rows()
+        rowid_hypothetical = range(n_rows, n_rows + len(hypotheticals))
+        try:
+            # Incorporate hypothetical rows.
+            for rowid, query in zip(rowid_hypothetical, hypotheticals):
+                for d in view.dims:
+                    self.X[d].append(query[d])
+                view.incorporate(rowid, query)
+            # Compute the relevance probability.
+            rowid_all = rowid_query + rowid_hypothetical
+            relevance = all(
+                view.Zr(rowid_target) == view.Zr(rq)
+                for rq in rowid_all
+            ) if rowid_all else 0
+        finally:
+            # Unincorporate hypothetical rows.
+            for rowid in reversed(rowid_hypothetical):
+                if rowid in view.Zr():
+                    view.unincorporate(rowid)
             for d in view.dims:
-                self.X[d].pop()
-            view.unincorporate(rowid)
+                del self.X[d][n_rows:]
         return int(relevance)
 
     # --------------------------------------------------------------------------
-- 
2.43.0


From 5473020794e733637ae1afe7beaf1eb49903a3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:05 +0000
Subject: [PATCH 20/56] fix: relevance: support a view that holds only the
 target and query rows

---
 src/mixtures/relevance.py | 4 ++--
 src/primitives/crp.py     | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mixtures/relevance.py b/src/mixtures/relevance.py
index 58373e0..c25f4b4 100644
--- a/src/mixtures/relevance.py
+++ b/src/mixtures/relevance.py
@@ -284,13 +284,13 @@ def row_values(view, rowid):
 
 def get_tables_same(tables):
     """Return tables to iterate over when query, target in same table."""
-    singleton = max(tables) + 1
+    singleton = max(tables) + 1 if tables else 0
     return tables + [singleton]
 
 
 def get_tables_different(tables):
     """Return tables to iterate over when query, target in different table."""
-    singleton = max(tables) + 1
+    singleton = max(tables) + 1 if tables else 0
     tables_target = tables + [singleton]
     auxiliary_table = lambda t: [] if t < singleton else [singleton+1]
     tables_query = [
diff --git a/src/primitives/crp.py b/src/primitives/crp.py
index fae7620..14d21bf 100644
--- a/src/primitives/crp.py
+++ b/src/primitives/crp.py
@@ -139,7 +139,8 @@ class Crp(DistributionGpm):
         K = sorted(self.counts)
         singleton = self.singleton(rowid)
         m_aux = m - 1 if singleton else m
-        t_aux = [max(self.counts) + 1 + m for m in range(m_aux)]
+        t_next = max(self.counts) + 1 if self.counts else 0
+        t_aux = [t_next + m for m in range(m_aux)]
         return K + t_aux
 
     def singleton(self, rowid):
-- 
2.43.0


From 721bcd381568b2f323a1a8292b994a4b8bd89cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:05 +0000
Subject: [PATCH 21/56] fix: State.mutual_information: draw the marginalised
 conditions given the fixed ones

---
 src/crosscat/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 40524e5..0393039 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -717,7 +717,7 @@ class State(CGpm):
             return m
         if progress:
             self._progress(0./T)
-        m_samples = self.simulate(None, m_constraints, N=T)
+        m_samples = self.simulate(None, m_constraints, e_constraints, N=T)
         mi = sum(compute_one(i, samp) for i, samp in enumerate(m_samples))
         return mi / float(T)
 
-- 
2.43.0


From 19885de733092e8b74b4ffef866b2de57431a6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:05 +0000
Subject: [PATCH 22/56] fix: LinearRegression: raise ValueError on an invalid
 input stattype

---
 src/regressions/linreg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/regressions/linreg.py b/src/regressions/linreg.py
index 5d0ad9f..bf0d653 100644
--- a/src/regressions/linreg.py
+++ b/src/regressions/linreg.py
@@ -273,6 +273,8 @@ class LinearRegression(CGpm):
             # way the queries are robust to unspecified or misspecified
             # categories.
             p, counts = cca['k'], int(cca['k'])+1
+        else:
+            raise ValueError('Invalid stattype, stargs: %s, %s.' % (cct, cca))
         return int(p), counts
 
     @staticmethod
-- 
2.43.0


From f817ce6b267529e593eec8dd4e060c372a8cf0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:05 +0000
Subject: [PATCH 23/56] fix: RandomForest.unincorporate: decrement the category
 count

---
 src/regressions/forest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/regressions/forest.py b/src/regressions/forest.py
index 1a2297c..78d7c1a 100644
--- a/src/regressions/forest.py
+++ b/src/regressions/forest.py
@@ -74,10 +74,11 @@ class RandomForest(CGpm):
 
     def unincorporate(self, rowid):
         try:
-            del self.data.x[rowid]
+            x = self.data.x.pop(rowid)
             del self.data.Y[rowid]
         except KeyError:
             raise ValueError('No such observation: %d' % rowid)
+        self.counts[x] -= 1
         self.N -= 1
 
     def logpdf(self, rowid, targets, constraints=None, inputs=None):
-- 
2.43.0


From d457e64b9e8d6a86bdac3d946490f1ca3c7ec4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 24/56] fix: FactorAnalysis.logpdf_score: sum over the rows,
 under their output names

---
 src/factor/factor.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/factor/factor.py b/src/factor/factor.py
index 0095085..b48112c 100644
--- a/src/factor/factor.py
+++ b/src/factor/factor.py
@@ -213,9 +213,10 @@ class FactorAnalysis(CGpm):
     def logpdf_score(self):
         def compute_logpdf(x):
             assert len(x) == self.D
-            targets = {i:v for i,v in enumerate(x) if not np.isnan(v)}
-            return self.logpdf(None, targets)
-        return sum(compute_logpdf(x) for x in self.data)
+            targets = {o:v for o,v in zip(self.observables, x)
+                if not np.isnan(v)}
+            return self.logpdf(None, targets) if targets else 0
+        return sum(compute_logpdf(x) for x in self.data.values())
 
     def transition(self, N=None):
         X = np.asarray(self.data.values())
-- 
2.43.0


From 2c763aff68810ae5f785f60beff160471088d886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:00 +0000
Subject: [PATCH 25/56] fix: MultivariateKde: give the categorical kernel the
 declared number of levels

---
 src/kde/mvkde.py | 50 ++++++++++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/src/kde/mvkde.py b/src/kde/mvkde.py
index 14de6dd..23f3eff 100644
--- a/src/kde/mvkde.py
+++ b/src/kde/mvkde.py
@@ -18,8 +18,8 @@ from collections import OrderedDict
 
 import numpy as np
 
-from statsmodels.nonparametric import _kernel_base
 from statsmodels.nonparametric import kernel_density
+from statsmodels.nonparametric import kernels
 
 from cgpm.cgpm import CGpm
 from cgpm.utils import general as gu
@@ -132,23 +132,14 @@ class MultivariateKde(CGpm):
         if any(q in constraints for q in targets):
             raise ValueError('Duplicate variable: %s, %s'
                 % (targets, constraints,))
-        if not constraints:
-            model = kernel_density.KDEMultivariate(
-                self._dataset(targets),
-                self._stattypes(targets),
-                bw=self._bw(targets),
-            )
-            pdf = model.pdf(targets.values())
-        else:
-            full_members = self._dataset(targets.keys() + constraints.keys())
-            model = kernel_density.KDEMultivariateConditional(
-                full_members[:,:len(targets)],
-                full_members[:,len(targets):],
-                self._stattypes(targets),
-                self._stattypes(constraints),
-                bw=np.concatenate((self._bw(targets), self._bw(constraints))),
-            )
-            pdf = model.pdf(targets.values(), constraints.values())
+        # Use only the exemplars in which all the variables are observed.
+        full_members = self._dataset(targets.keys() + constraints.keys())
+        if len(full_members) == 0:
+            raise ValueError('No complete observations: %s, %s'
+                % (targets, constraints,))
+        weights_t = self._weights(full_members[:,:len(targets)], targets)
+        weights_c = self._weights(full_members[:,len(targets):], constraints)
+        pdf = np.sum(weights_t * weights_c) / np.sum(weights_c)
         return np.log(pdf)
 
     def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
@@ -166,13 +157,8 @@ class MultivariateKde(CGpm):
         constraints = self.populate_constraints(rowid, targets, constraints)
         if constraints:
             full_members = self._dataset(targets + constraints.keys())
-            weights = _kernel_base.gpke(
-                self._bw(constraints),
-                full_members[:,len(targets):],
-                constraints.values(),
-                self._stattypes(constraints),
-                tosum=False,
-            )
+            weights = self._weights(
+                full_members[:,len(targets):], constraints)
             targets_members = full_members[:,:len(targets)]
         else:
             targets_members = self._dataset(targets)
@@ -227,6 +213,20 @@ class MultivariateKde(CGpm):
     # --------------------------------------------------------------------------
     # Internal.
 
+    def _weights(self, members, assignment):
+        # Product kernel density of the assignment around each of the members.
+        # The number of levels must be given to the categorical kernel,
+        # otherwise it counts only those that occur in the members.
+        weights = np.ones(len(members))
+        for i, (q, x) in enumerate(assignment.items()):
+            bw, Xi = self.bw[self.outputs.index(q)], members[:,i]
+            if q in self.levels:
+                k = kernels.aitchison_aitken(bw, Xi, x, self.levels[q])
+            else:
+                k = kernels.gaussian(bw, Xi, x) / bw
+            weights = weights * k
+        return weights
+
     def _dataset(self, outputs):
         indexes = [self.outputs.index(q) for q in outputs]
         X = np.asarray(self.data.values())[:,indexes]
-- 
2.43.0


From d226bdb1c8dd213505502f05bd5c448949d6b489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:00 +0000
Subject: [PATCH 26/56] fix: MultivariateKnn: draw only the equidistant rows at
 the boundary

---
 src/knn/mvknn.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/knn/mvknn.py b/src/knn/mvknn.py
index 7d623c5..3b68acd 100644
--- a/src/knn/mvknn.py
+++ b/src/knn/mvknn.py
@@ -194,10 +194,14 @@ class MultivariateKnn(CGpm):
             [constraints.values()], constraints.keys())
         dist, neighbors = KDTree(D_ev_code).query(constraints_code, k=len(D))
         # Check for equidistant neighbors and possibly extend the search.
-        valid = [i for i, d in enumerate(dist[0]) if d <= dist[0][self.K-1]]
-        if self.K < len(valid):
-            neighbors = self.rng.choice(neighbors[0][valid],
-                replace=False, size=self.K)
+        radius = dist[0][self.K-1]
+        nearer = [i for i, d in enumerate(dist[0]) if d < radius]
+        equidistant = [i for i, d in enumerate(dist[0]) if d == radius]
+        if self.K < len(nearer) + len(equidistant):
+            neighbors = np.concatenate((
+                neighbors[0][nearer],
+                self.rng.choice(neighbors[0][equidistant],
+                    replace=False, size=self.K-len(nearer))))
         else:
             neighbors = neighbors[0][:self.K]
         # For each neighbor, find its nearest M on the full lookup set.
-- 
2.43.0


From 68099ca5d42d1831db689dee9e9749beabdaf348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:00 +0000
Subject: [PATCH 27/56] fix: MultivariateKnn: localities hold M rows also when
 M exceeds K

---
 src/knn/mvknn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/knn/mvknn.py b/src/knn/mvknn.py
index 3b68acd..3925fb3 100644
--- a/src/knn/mvknn.py
+++ b/src/knn/mvknn.py
@@ -205,7 +205,7 @@ class MultivariateKnn(CGpm):
         else:
             neighbors = neighbors[0][:self.K]
         # For each neighbor, find its nearest M on the full lookup set.
-        _, ex = KDTree(D_code).query(D_code[neighbors], k=min(self.M, self.K))
+        _, ex = KDTree(D_code).query(D_code[neighbors], k=min(self.M, len(D)))
         # Return the dataset and the list of neighborhoods.
         return D[:,:len(targets)], ex
 
-- 
2.43.0


From 4d7bd3f598a54d798ad5a9d3534b40446cbfaf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:38 +0000
Subject: [PATCH 28/56] fix: mh_sample: keep the proposals symmetric and inside
 any domain

---
 src/utils/sampling.py | 46 +++++++++++++++----------------------------
 1 file changed, 16 insertions(+), 30 deletions(-)

diff --git a/src/utils/sampling.py b/src/utils/sampling.py
index f8b7f38..5952243 100644
--- a/src/utils/sampling.py
+++ b/src/utils/sampling.py
@@ -76,33 +76,9 @@ def mh_sample(
     iters = 1.0
     aiters = 1.0
 
-    # XXX DISABLED.
-    log_correction = lambda x, x_prime, jstd: 0
-
-    # Is proposal symmetric? The folded normal is, but taking % 1?
-    if D[0] == 0 and D[1] == 1:
-        def jumpfun(x, jstd):
-            x_prime = fabs(rng.normal(x, jstd))
-            if x_prime > 1.0:
-                x_prime = x_prime % 1
-            return x_prime
-    elif 0 <= D[0] and D[1] == float('inf'):
-        jumpfun = lambda x, jstd: fabs(x + rng.normal(0.0, jstd))
-    else:
-        def jumpfun(x, jstd):
-            MAX_TRIALS = 1000
-            for _ in xrange(MAX_TRIALS):
-                x_prime = rng.normal(x, jstd)
-                if D[0] < x_prime < D[1]:
-                    return x_prime
-            raise RuntimeError('MH failed to rejection sample the proposal.')
-        # XXX DISABLED, actually the mh function needs rewriting issue #56.
-        def log_correction(x, x_prime, jstd):
-            from scipy.stats import norm
-            if D[0] == float('inf') and D[1] == float('inf'):
-                return 0
-            return norm.logcdf((D[1]-x)/jump_std-(D[0]-x)/jump_std) \
-                - norm.logcdf((D[1]-x_prime)/jump_std-(D[0]-x_prime)/jump_std)
+    # Reflecting the proposal at the end points of D keeps it symmetric, so that
+    # no correction is needed in the acceptance ratio.
+    jumpfun = lambda x, jstd: _reflect(rng.normal(x, jstd), D)
 
     logp = logpdf_target(x)
     while num_collected < num_samples:
@@ -111,9 +87,6 @@ def mh_sample(
         assert D[0] < x_prime < D[1]
         logp_prime = logpdf_target(x_prime)
 
-        # XXX DISABLED Correct MH sampler requires the log correction!
-        # logp_corr = log_correction(x, x_prime, jump_std)
-
         if log(rng.rand()) < logp_prime - logp:
             x = x_prime
             logp = logp_prime
@@ -143,6 +116,19 @@ def mh_sample(
     else:
         return samples
 
+def _reflect(x, D):
+    """Folds x into the interval D by reflecting it at the end points."""
+    low, high = D
+    if low == -float('inf') and high == float('inf'):
+        return x
+    if high == float('inf'):
+        return low + fabs(x - low)
+    if low == -float('inf'):
+        return high - fabs(high - x)
+    width = float(high - low)
+    y = (x - low) % (2 * width)
+    return low + (y if y <= width else 2 * width - y)
+
 def slice_sample(
         proposal_fun, log_pdf_fun, D,
         num_samples=1, burn=1, lag=1, w=1.0, rng=None):
-- 
2.43.0


From d1862a56fc017d6bf1508ba0c7e29f627e8accd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:38 +0000
Subject: [PATCH 29/56] fix: NormalTrunc: accept zero hyperparameters and
 target the posterior in parameter updates

---
 src/primitives/normal_trunc.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/primitives/normal_trunc.py b/src/primitives/normal_trunc.py
index 1aa34f7..101489d 100644
--- a/src/primitives/normal_trunc.py
+++ b/src/primitives/normal_trunc.py
@@ -51,7 +51,7 @@ class NormalTrunc(DistributionGpm):
         if params is None: params = {}
         self.mu = params.get('mu', None)
         self.sigma = params.get('sigma', 1)
-        if not self.mu or not self.sigma:
+        if self.mu is None or self.sigma is None:
             self.mu, self.sigma = NormalTrunc.sample_parameters(
                 self.alpha, self.beta, self.l, self.h, self.rng)
 
@@ -112,18 +112,24 @@ class NormalTrunc(DistributionGpm):
     def transition_params(self):
         n_samples = 100
 
+        def logpdf_params(mu, sigma):
+            data_logp = NormalTrunc.calc_log_likelihood(
+                self.N, self.sum_x, self.sum_x_sq, sigma, mu)
+            prior_logp = NormalTrunc.calc_log_prior(
+                mu, sigma, self.alpha, self.beta, self.l, self.h)
+            normalizer_logp = NormalTrunc.calc_log_normalizer(
+                mu, sigma, self.l, self.h)
+            return data_logp + prior_logp - self.N * normalizer_logp
+
         # Transition mu.
-        fn_logpdf_mu = lambda mu : NormalTrunc.calc_log_likelihood(
-            self.N, self.sum_x, self.sum_x_sq, self.sigma, mu)
+        fn_logpdf_mu = lambda mu : logpdf_params(mu, self.sigma)
 
         self.mu = su.mh_sample(
             self.mu, fn_logpdf_mu, 1, [self.l, self.h],
             burn=n_samples, rng=self.rng)
 
         # Transition sigma.
-        fn_logpdf_sigma = lambda sigma : NormalTrunc.calc_log_likelihood(
-            self.N, self.sum_x, self.sum_x_sq, sigma, self.mu) + \
-            NormalTrunc.calc_log_normalizer(self.mu, sigma, self.l, self.h)
+        fn_logpdf_sigma = lambda sigma : logpdf_params(self.mu, sigma)
 
         self.sigma = su.mh_sample(
             self.sigma, fn_logpdf_sigma, 1, [0, float('inf')], burn=n_samples,
@@ -193,7 +199,7 @@ class NormalTrunc(DistributionGpm):
     @staticmethod
     def calc_log_prior(mu, sigma, alpha, beta, l, h):
         log_sigma = gamma.logpdf(sigma, alpha, scale=beta)
-        log_mu = uniform.logpdf(mu, loc=l, scale=l+h)
+        log_mu = uniform.logpdf(mu, loc=l, scale=h-l)
         return log_mu + log_sigma
 
     @staticmethod
-- 
2.43.0


From 8fd87d923ca1da4d906e0e99481a873536ccba20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:38 +0000
Subject: [PATCH 30/56] fix: FourWay, TwoWay: accept float values and normalise
 the weights in logpdf

---
 src/dummy/fourway.py | 4 +++-
 src/dummy/twoway.py  | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/dummy/fourway.py b/src/dummy/fourway.py
index de6daa8..41dbe18 100644
--- a/src/dummy/fourway.py
+++ b/src/dummy/fourway.py
@@ -63,7 +63,9 @@ class FourWay(CGpm):
             inputs[self.inputs[0]],
             inputs[self.inputs[1]],
         )
-        return np.log(self.probabilities[regime][x])
+        # The rows of the table are not normalized.
+        p = self.probabilities[regime]
+        return np.log(p[int(x)]) - np.log(sum(p))
 
     def transition(self, N=None, S=None):
         time.sleep(.1)
diff --git a/src/dummy/twoway.py b/src/dummy/twoway.py
index 06b541c..1b5ec60 100644
--- a/src/dummy/twoway.py
+++ b/src/dummy/twoway.py
@@ -49,7 +49,7 @@ class TwoWay(CGpm):
         y = inputs[self.inputs[0]]
         assert int(y) == float(y)
         assert y in [0, 1]
-        x = gu.pflip(self.probabilities[y], rng=self.rng)
+        x = gu.pflip(self.probabilities[int(y)], rng=self.rng)
         return {self.outputs[0]: x}
 
     def logpdf(self, rowid, targets, constraints=None, inputs=None):
@@ -57,7 +57,8 @@ class TwoWay(CGpm):
         assert int(y) == float(y)
         assert y in [0, 1]
         x = targets[self.outputs[0]]
-        return np.log(self.probabilities[y][x]) if x in [0,1] else -float('inf')
+        return np.log(self.probabilities[int(y)][int(x)]) if x in [0,1]\
+            else -float('inf')
 
     def transition(self, N=None):
         time.sleep(.1)
-- 
2.43.0


From 77e5614aa9f6dc5e94178106de0c659f2afdb47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:38 +0000
Subject: [PATCH 31/56] fix: PieceWise: the joint density is of x, not of z
 twice

---
 src/dummy/piecewise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dummy/piecewise.py b/src/dummy/piecewise.py
index 913cd0c..5e00778 100644
--- a/src/dummy/piecewise.py
+++ b/src/dummy/piecewise.py
@@ -95,7 +95,7 @@ class PieceWise(CGpm):
         if not constraints:
             # Case 1.1: z in the targets and x in the targets.
             if self.outputs[0] in targets and self.outputs[1] in targets:
-                z, x = targets[self.outputs[1]], targets[self.outputs[1]]
+                z, x = targets[self.outputs[1]], targets[self.outputs[0]]
                 # XXX Check if z in [0, 1]
                 logp_z = np.log(self.flip) if z == 0 else np.log(1-self.flip)
                 logp_x = logpdf_normal(x, y + (2*z - 1), self.sigma)
-- 
2.43.0


From 34e579f745ef23bfc9ea98464ebdbbae1009eb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:38 +0000
Subject: [PATCH 32/56] fix: DirectedXyGpm: pass the constraints and inputs on

---
 src/uncorrelated/directed.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/uncorrelated/directed.py b/src/uncorrelated/directed.py
index 0cb632f..11af01b 100644
--- a/src/uncorrelated/directed.py
+++ b/src/uncorrelated/directed.py
@@ -49,9 +49,10 @@ class DirectedXyGpm(CGpm):
     def logpdf(self, rowid, targets, constraints=None, inputs=None):
         if self.network is None:
             raise ValueError('self.network not defined by %s' % (type(self),))
-        return self.network.logpdf(rowid, targets, inputs)
+        return self.network.logpdf(rowid, targets, constraints, inputs)
 
     def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
         if self.network is None:
             raise ValueError('self.network not defined by %s' % (type(self),))
-        return self.network.simulate(rowid, targets, inputs, N)
+        return self.network.simulate(
+            rowid, targets, constraints, inputs, N)
-- 
2.43.0


From 2ec3183d92603ada87d9d834de92d92e708c0981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:38 +0000
Subject: [PATCH 33/56] fix: UndirectedXyGpm: call logpdf_marginal, order x and
 y by the outputs

---
 src/uncorrelated/undirected.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uncorrelated/undirected.py b/src/uncorrelated/undirected.py
index b62c6b1..652b04f 100644
--- a/src/uncorrelated/undirected.py
+++ b/src/uncorrelated/undirected.py
@@ -37,11 +37,11 @@ class UnDirectedXyGpm(CGpm):
         assert not inputs
         if not constraints:
             if len(targets) == 2:
-                x, y = targets.values()
+                x, y = [targets[o] for o in self.outputs]
                 return self.logpdf_joint(x, y)
             else:
                 z = targets.values()[0]
-                return self.logpdf_maringal(z)
+                return self.logpdf_marginal(z)
         else:
             assert len(constraints) == len(targets) == 1
             z = constraints.values()[0]
-- 
2.43.0


From 64c5ed1f4e1c95feed41b7df4b2483445a070458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:38 +0000
Subject: [PATCH 34/56] fix: Dots: the conditional density is of the query, not
 of the condition

---
 src/uncorrelated/dots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uncorrelated/dots.py b/src/uncorrelated/dots.py
index 121d18d..06eef50 100644
--- a/src/uncorrelated/dots.py
+++ b/src/uncorrelated/dots.py
@@ -49,4 +49,4 @@ class Dots(UnDirectedXyGpm):
             for mx in set(self.mx)])
 
     def logpdf_conditional(self, w, z):
-        return self.logpdf_marginal(z)
+        return self.logpdf_marginal(w)
-- 
2.43.0


From a9e1c8fe4c316a70f1aba84b6e995021403e706c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:38 +0000
Subject: [PATCH 35/56] fix: parse_schema: read the distargs of a stattype, not
 of its column name

---
 src/utils/data.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/utils/data.py b/src/utils/data.py
index c8b6d7a..a70d401 100644
--- a/src/utils/data.py
+++ b/src/utils/data.py
@@ -90,10 +90,12 @@ def parse_schema(schema, dataframe):
         if stattype == 'ignore':
             continue
         X = dataframe[column]
+        # Did the user specify distargs?
+        [stattype], [args] = cu.parse_distargs([stattype])
         columns.append(column)
         cctypes.append(stattype)
         outputs.append(index)
-        distargs.append(None)
+        distargs.append(args)
         # XXX Should check for is_numeric!
         if stattype in ['bernoulli', 'categorical']:
             mapping = build_valmap(X)
@@ -102,12 +104,10 @@ def parse_schema(schema, dataframe):
             if stattype == 'bernoulli':
                 assert len(mapping) == 2
             else:
-                # Did user specify categorical mapping?
-                dist, k_user = cu.parse_distargs([column])
-                if k_user == [None]:
-                    distargs[-1] = {'k': len(mapping)}
-                else:
-                    assert len(mapping) <= k_user
+                # Did user specify number of categories?
+                k = int(args['k']) if args else len(mapping)
+                assert len(mapping) <= k
+                distargs[-1] = {'k': k}
         D.append(X)
     T = np.asarray(D).T
     assert len(cctypes) == len(distargs) == len(columns)
-- 
2.43.0


From 2dd5fa89124461a8fff6fe316cb7ca8370adfa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:38 +0000
Subject: [PATCH 36/56] fix: parallel_map: report any failure to send a result
 back

---
 src/utils/parallel_map.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/utils/parallel_map.py b/src/utils/parallel_map.py
index a84ec1f..0919be1 100644
--- a/src/utils/parallel_map.py
+++ b/src/utils/parallel_map.py
@@ -15,7 +15,6 @@
 # You should have received a copy of the GNU General Public License
 # along with Venture.  If not, see <http://www.gnu.org/licenses/>.
 
-import cPickle as pickle
 import os
 import struct
 import traceback
@@ -53,7 +52,7 @@ def parallel_map(f, l, parallelism=None):
             os.write(retq_wr, le32enc(childno))
             try:
                 outq_wr.send((i, ok, fx))
-            except pickle.PicklingError:
+            except Exception:
                 outq_wr.send((i, False, traceback.format_exc()))
 
     def process_output(fl, ctr, output):
-- 
2.43.0


From 63f5024ab38782d71628afe568be19bb47725088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 37/56] fix: build_valmap: leave nan out of the sort

---
 src/utils/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/data.py b/src/utils/data.py
index a70d401..24db03f 100644
--- a/src/utils/data.py
+++ b/src/utils/data.py
@@ -116,7 +116,8 @@ def parse_schema(schema, dataframe):
 
 
 def build_valmap(column):
-    uniques = [u for u in sorted(column.unique()) if not pd.isnull(u)]
+    # A nan must not take part in the sort, since it compares with nothing.
+    uniques = sorted(u for u in column.unique() if not pd.isnull(u))
     return {u:k for k,u in enumerate(uniques)}
 
 
-- 
2.43.0


From 78501ae4583e2adf9312755c6912c80c115fec91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 38/56] fix: VsCGpm.simulate: return N samples when asked for
 them

---
 src/venturescript/vscgpm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/venturescript/vscgpm.py b/src/venturescript/vscgpm.py
index ad0a6d2..bc896e2 100644
--- a/src/venturescript/vscgpm.py
+++ b/src/venturescript/vscgpm.py
@@ -93,6 +93,7 @@ class VsCGpm(CGpm):
     def logpdf(self, rowid, targets, constraints=None, inputs=None):
         return 0
 
+    @gu.simulate_many
     def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
         constraints_clean, inputs_clean = \
             self._validate_simulate(rowid, targets, constraints, inputs)
-- 
2.43.0


From 1039db50ba63054bf978ba20b4027cf81d7d72d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 39/56] fix: VsCGpm: leave nothing of a query or a failed call
 behind

---
 src/venturescript/vscgpm.py | 56 ++++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 17 deletions(-)

diff --git a/src/venturescript/vscgpm.py b/src/venturescript/vscgpm.py
index bc896e2..cc1906f 100644
--- a/src/venturescript/vscgpm.py
+++ b/src/venturescript/vscgpm.py
@@ -78,9 +78,20 @@ class VsCGpm(CGpm):
         self.obs = defaultdict(lambda: defaultdict(dict))
 
     def incorporate(self, rowid, observation, inputs=None):
+        exists = rowid in self.obs
         inputs = self._validate_incorporate(rowid, observation, inputs)
-        for variable, value in observation.iteritems():
-            self._observe_cell(rowid, variable, value, inputs)
+        observed = []
+        try:
+            for variable, value in observation.iteritems():
+                self._observe_cell(rowid, variable, value, inputs)
+                observed.append(variable)
+        except Exception:
+            # Leave no part of a failed observation behind.
+            for variable in observed:
+                self._forget_cell(rowid, variable)
+            if not exists:
+                del self.obs[rowid]
+            raise
 
     def unincorporate(self, rowid):
         if rowid not in self.obs:
@@ -95,28 +106,39 @@ class VsCGpm(CGpm):
 
     @gu.simulate_many
     def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
+        exists = rowid in self.obs
         constraints_clean, inputs_clean = \
             self._validate_simulate(rowid, targets, constraints, inputs)
-        # Handle constraints on the multivariate output.
-        if constraints_clean:
-            # Observe constrained outputs.
-            for variable, value in constraints_clean.iteritems():
-                self._observe_cell(rowid, variable, value, inputs_clean)
-            # Run local inference in rowid scope, with 15 steps of MH.
-            self.ripl.infer('(resimulation_mh (atom %i) all %i)' % (rowid, 15))
         # Retrieve samples, with 5 steps of MH between predict.
         def retrieve_sample(q, l):
             # XXX Only run inference on the latent variables in the block.
             # self.ripl.infer('(resimulation_mh (atom %i) all %i)' % (rowid, 5))
             return self._predict_cell(rowid, q, inputs_clean, l)
-        labels = [self._gen_label() for q in targets]
-        samples = {q: retrieve_sample(q, l) for q, l in zip(targets, labels)}
-        # Forget predicted targets variables.
-        for label in labels:
-            self.ripl.forget(label)
-        # Forget constrained outputs.
-        for q, _v in constraints_clean.iteritems():
-            self._forget_cell(rowid, q)
+        samples = dict()
+        labels = []
+        try:
+            # Handle constraints on the multivariate output.
+            if constraints_clean:
+                # Observe constrained outputs.
+                for variable, value in constraints_clean.iteritems():
+                    self._observe_cell(rowid, variable, value, inputs_clean)
+                # Run local inference in rowid scope, with 15 steps of MH.
+                self.ripl.infer(
+                    '(resimulation_mh (atom %i) all %i)' % (rowid, 15))
+            for q in targets:
+                label = self._gen_label()
+                samples[q] = retrieve_sample(q, label)
+                labels.append(label)
+        finally:
+            # Forget predicted targets variables.
+            for label in labels:
+                self.ripl.forget(label)
+            # Forget constrained outputs.
+            for q, _v in constraints_clean.iteritems():
+                self._forget_cell(rowid, q)
+            # The row of a query is not a recorded observation.
+            if not exists:
+                self.obs.pop(rowid, None)
         return samples
 
     def logpdf_score(self):
-- 
2.43.0


From 5bb887c8492b16754e22fe3de7be4d569126b958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 40/56] fix: InlineVsCGpm: forget the expression when the
 program fails

---
 src/venturescript/vsinline.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/venturescript/vsinline.py b/src/venturescript/vsinline.py
index 060611b..ae71d8b 100644
--- a/src/venturescript/vsinline.py
+++ b/src/venturescript/vsinline.py
@@ -69,16 +69,18 @@ class InlineVsCGpm(CGpm):
         assert targets.keys() == self.outputs
         assert not constraints
         self.ripl.assume('expr', self.expression, label='expr_assume')
-        sp_args = self._retrieve_args(inputs)
-        # Retrieve the conditional density.
-        logp = self.ripl.observe(
-            'expr (%s)' % (sp_args,),
-            targets[self.outputs[0]],
-            label='expr_observe',
-        )
-        # Forget the label.
-        self.ripl.forget('expr_observe')
-        self.ripl.forget('expr_assume')
+        try:
+            sp_args = self._retrieve_args(inputs)
+            # Retrieve the conditional density.
+            logp = self.ripl.observe(
+                'expr (%s)' % (sp_args,),
+                targets[self.outputs[0]],
+                label='expr_observe',
+            )
+            # Forget the label.
+            self.ripl.forget('expr_observe')
+        finally:
+            self.ripl.forget('expr_assume')
         return logp[0]
 
     @gu.simulate_many
@@ -89,9 +91,11 @@ class InlineVsCGpm(CGpm):
         assert targets == self.outputs
         assert not constraints
         self.ripl.assume('expr', self.expression, label='expr')
-        sp_args = self._retrieve_args(inputs)
-        sample = self.ripl.sample('expr(%s)' % (sp_args,))
-        self.ripl.forget('expr')
+        try:
+            sp_args = self._retrieve_args(inputs)
+            sample = self.ripl.sample('expr(%s)' % (sp_args,))
+        finally:
+            self.ripl.forget('expr')
         return {self.outputs[0]: sample}
 
     def logpdf_score(self):
-- 
2.43.0


From e6c4887a142feb9ba7f2d252a1549a6097a41e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 41/56] fix: lovecat.transition: one step when neither N nor S
 is given

---
 src/crosscat/lovecat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/lovecat.py b/src/crosscat/lovecat.py
index 239ceec..7b1a8ca 100644
--- a/src/crosscat/lovecat.py
+++ b/src/crosscat/lovecat.py
@@ -349,7 +349,7 @@ def transition(
     if N is None and S is None:
         n_steps = 1
         max_time = -1
-    if N is not None and S is None:
+    elif N is not None and S is None:
         n_steps = N
         max_time = -1
     elif S is not None and N is None:
-- 
2.43.0


From 358312f30aa5b4e8139a54c6766698f75a4bd6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 42/56] fix: lovecat: state the dependence constraints by
 column index

---
 src/crosscat/lovecat.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/crosscat/lovecat.py b/src/crosscat/lovecat.py
index 7b1a8ca..59f0614 100644
--- a/src/crosscat/lovecat.py
+++ b/src/crosscat/lovecat.py
@@ -202,16 +202,19 @@ def _crosscat_X_L(state, M_c, X_D):
     view_states = [view_state(v) for v in views_unique]
 
     # Generates X_L['col_ensure'].
+    # The constraints are over state.outputs, which are arbitrary integers,
+    # whereas lovecat identifies columns by their zero-based index.
+    to_index = {c: i for i, c in enumerate(state.outputs)}
     col_ensure = dict()
     if state.Cd:
         col_ensure['dependent'] = {
-            str(column) : list(block)
+            str(to_index[column]) : [to_index[c] for c in block]
             for block in state.Cd for column in block
         }
     if state.Ci:
         from crosscat.utils.general_utils import get_scc_from_tuples
         col_ensure['independent'] = {
-            str(column) : list(block) for
+            str(to_index[column]) : [to_index[c] for c in block] for
             column, block in get_scc_from_tuples(state.Ci).iteritems()
         }
 
-- 
2.43.0


From 7cfea4584570c2993e18644fdbdff722e3c88cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 43/56] fix: loomcat.transition_engine: one pass when N is not
 given

---
 src/crosscat/loomcat.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crosscat/loomcat.py b/src/crosscat/loomcat.py
index 64abd68..159c359 100644
--- a/src/crosscat/loomcat.py
+++ b/src/crosscat/loomcat.py
@@ -318,6 +318,9 @@ def transition_engine(
         for state in engine.states:
             state._loom_path = loom_path
 
+    if N is None:
+        N = 1
+
     # Run transitions using Loom multiprocessing.
     loom.tasks.infer(
         engine.states[0]._loom_path['results'],
-- 
2.43.0


From 12a56c572f56617ac4567896955069d1cdca9f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 44/56] fix: State: abandon the loom project when the data or
 schema changes

---
 src/crosscat/state.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 0393039..dfce4e8 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -170,6 +170,8 @@ class State(CGpm):
             self.diagnostics = defaultdict(list, diagnostics)
 
         # -- Loom project ------------------------------------------------------
+        # The project holds a copy of the dataset and the schema, so it is
+        # abandoned whenever either of them changes.
         self._loom_path = loom_path
 
         # -- Validate ----------------------------------------------------------
@@ -236,6 +238,7 @@ class State(CGpm):
         if v_add not in self.views:
             self.views[v_add] = view
         self.crp.incorporate(col, {self.crp_id: v_add}, {-1:0})
+        self._loom_path = None
         # Transition.
         self.transition_dims(cols=transition)
         self.transition_dim_hypers(cols=[col])
@@ -262,6 +265,7 @@ class State(CGpm):
         # Clear data for col and remove it from outputs.
         del self.X[col]
         self.set_outputs([i for i in self.outputs if i != col])
+        self._loom_path = None
         # Update composite flag.
         self._update_is_composite()
         # Validate.
@@ -303,6 +307,7 @@ class State(CGpm):
             for c in self.outputs:
                 self.X[c].pop()
             raise
+        self._loom_path = None
         # Validate.
         self._check_partitions()
 
@@ -320,6 +325,7 @@ class State(CGpm):
         # Tell the views.
         for v in self.views:
             self.views[v].unincorporate(rowid)
+        self._loom_path = None
         # Validate.
         self._check_partitions()
 
@@ -345,6 +351,7 @@ class State(CGpm):
                 self.views[view_id].force_cell(
                     rowid, {c: float('nan') for c in view_variables})
             raise
+        self._loom_path = None
 
     # --------------------------------------------------------------------------
     # Schema updates.
@@ -353,6 +360,7 @@ class State(CGpm):
         """Update the distribution type of self.dims[col] to cctype."""
         assert col in self.outputs
         self.view_for(col).update_cctype(col, cctype, distargs=distargs)
+        self._loom_path = None
         self.transition_dim_grids(cols=[col])
         self.transition_dim_params(cols=[col])
         self.transition_dim_hypers(cols=[col])
-- 
2.43.0


From 7c6bf1b896e2a018f7eab93cbbc3ad3cacf40809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:51 +0000
Subject: [PATCH 45/56] fix: kldiv with k=1 indexed the scalar distance a k-d
 tree returns for one neighbour

---
 src/utils/entropy_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/entropy_estimators.py b/src/utils/entropy_estimators.py
index a98f500..3091ae0 100755
--- a/src/utils/entropy_estimators.py
+++ b/src/utils/entropy_estimators.py
@@ -84,7 +84,7 @@ def kldiv(x, xp, k=3, base=2):
   tree = ss.cKDTree(x)
   treep = ss.cKDTree(xp)
   nn = [tree.query(point, k+1, p=float('inf'))[0][k] for point in x]
-  nnp = [treep.query(point, k, p=float('inf'))[0][k-1] for point in x]
+  nnp = [np.ravel(treep.query(point, k, p=float('inf'))[0])[k-1] for point in x]
   return (const + d * np.mean(map(log, nnp)) \
     - d * np.mean(map(log, nn))) / log(base)
 
-- 
2.43.0


From cc62d3ba92aefc04c30782485ac79ee71c4f9880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:23 +0000
Subject: [PATCH 46/56] fix: lovecat: send the row partition in the order of
 the rows

Reassigning a row moves it to the end of the dictionary of assignments, so
after any row transition the partition handed to lovecat was permuted.
---
 src/crosscat/lovecat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/lovecat.py b/src/crosscat/lovecat.py
index 59f0614..4e5d310 100644
--- a/src/crosscat/lovecat.py
+++ b/src/crosscat/lovecat.py
@@ -100,7 +100,7 @@ def _crosscat_X_D(state, M_c):
     views_unique = sorted(set(view_assignments))
 
     cluster_assignments = [
-        state.views[v].Zr().values()
+        [state.views[v].Zr(rowid) for rowid in xrange(state.n_rows())]
         for v in views_unique
     ]
     cluster_assignments_unique = [
-- 
2.43.0


From a36a36da41928f5fb16435b298e1c9d83c2fa421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:55 +0000
Subject: [PATCH 47/56] fix: FourWay, PieceWise: values that are no regime have
 no probability

---
 src/dummy/fourway.py   | 2 +-
 src/dummy/piecewise.py | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/dummy/fourway.py b/src/dummy/fourway.py
index 41dbe18..ee9a4d8 100644
--- a/src/dummy/fourway.py
+++ b/src/dummy/fourway.py
@@ -57,7 +57,7 @@ class FourWay(CGpm):
 
     def logpdf(self, rowid, targets, constraints=None, inputs=None):
         x = targets[self.outputs[0]]
-        if not (0 <= x <= 3):
+        if x not in [0, 1, 2, 3]:
             return -float('inf')
         regime = self.lookup_quadrant(
             inputs[self.inputs[0]],
diff --git a/src/dummy/piecewise.py b/src/dummy/piecewise.py
index 5e00778..9490759 100644
--- a/src/dummy/piecewise.py
+++ b/src/dummy/piecewise.py
@@ -96,13 +96,16 @@ class PieceWise(CGpm):
             # Case 1.1: z in the targets and x in the targets.
             if self.outputs[0] in targets and self.outputs[1] in targets:
                 z, x = targets[self.outputs[1]], targets[self.outputs[0]]
-                # XXX Check if z in [0, 1]
+                if z not in [0, 1]:
+                    return -float('inf')
                 logp_z = np.log(self.flip) if z == 0 else np.log(1-self.flip)
                 logp_x = logpdf_normal(x, y + (2*z - 1), self.sigma)
                 logp = logp_x + logp_z
             # Case 1.2: z in the targets only.
             elif self.outputs[1] in targets:
                 z = targets[self.outputs[1]]
+                if z not in [0, 1]:
+                    return -float('inf')
                 logp_z = np.log(self.flip) if z == 0 else np.log(1-self.flip)
                 logp = logp_z
             # Case 1.2: x in the targets only.
@@ -128,6 +131,8 @@ class PieceWise(CGpm):
         elif constraints.keys() == [self.outputs[1]]:
             assert targets.keys() == [self.outputs[0]]
             z = constraints[self.outputs[1]]
+            if z not in [0, 1]:
+                raise ValueError('Zero density constraints: %s' % constraints)
             x = targets[self.outputs[0]]
             logp_xz = self.logpdf(
                 rowid,
-- 
2.43.0


From f52954c5d5b9db88cfd16812124f0a1bdebc25f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:59 +0000
Subject: [PATCH 48/56] fix: State, View: metadata shares no hyperparameters or
 diagnostics with the model

---
 src/crosscat/state.py | 6 +++---
 src/mixtures/view.py  | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index dfce4e8..574d82e 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -167,7 +167,7 @@ class State(CGpm):
             self.diagnostics = defaultdict(list)
             self.diagnostics['iterations'] = dict()
         else:
-            self.diagnostics = defaultdict(list, diagnostics)
+            self.diagnostics = defaultdict(list, copy.deepcopy(diagnostics))
 
         # -- Loom project ------------------------------------------------------
         # The project holds a copy of the dataset and the schema, so it is
@@ -1264,7 +1264,7 @@ class State(CGpm):
         metadata['suffstats'] = []
         for dim in self.dims():
             metadata['cctypes'].append(dim.cctype)
-            metadata['hypers'].append(dim.hypers)
+            metadata['hypers'].append(dict(dim.hypers))
             # XXX Inputs to conditional dim are stored in
             # distargs['inputs']['indexes']; instead create a separate metadata
             # entry for the dimension inputs.
@@ -1284,7 +1284,7 @@ class State(CGpm):
             metadata['view_alphas'].append((v, view.alpha()))
 
         # Diagnostic data.
-        metadata['diagnostics'] = self.diagnostics
+        metadata['diagnostics'] = copy.deepcopy(self.diagnostics)
 
         # Hooked CGPMs.
         metadata['hooked_cgpms'] = dict()
diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index a7dc4f6..f8e2037 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -616,7 +616,7 @@ class View(CGpm):
         metadata['suffstats'] = []
         for c in self.outputs[1:]:
             metadata['cctypes'].append(self.dims[c].cctype)
-            metadata['hypers'].append(self.dims[c].hypers)
+            metadata['hypers'].append(dict(self.dims[c].hypers))
             metadata['distargs'].append(self.dims[c].distargs)
             metadata['suffstats'].append(self.dims[c].get_suffstats().items())
 
-- 
2.43.0


From 7f0e882ecfd00ad20ee36698b8f82465130ff7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:34 +0000
Subject: [PATCH 49/56] fix: State: parameters proposed for a view are drawn
 from the state's random source

---
 src/crosscat/state.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 574d82e..d76d6ec 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -1098,7 +1098,8 @@ class State(CGpm):
         # create copy to preserve uncollapsed state (can optimize).
         if dim.is_collapsed() or self._dim_is_member(view, dim):
             return dim
-        return copy.deepcopy(dim)
+        # The copy shares the random source, so that it keeps advancing.
+        return copy.deepcopy(dim, {id(dim.rng): dim.rng})
 
     def _validate_transition_dims(self):
         """Raise if the columns of this State may not be transitioned."""
-- 
2.43.0


From bac013f529b336c90c8e6c7d640c1024a4f878c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:21 +0000
Subject: [PATCH 50/56] fix: State: constraints no longer name a removed column

---
 src/crosscat/state.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index d76d6ec..61c8222 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -265,6 +265,11 @@ class State(CGpm):
         # Clear data for col and remove it from outputs.
         del self.X[col]
         self.set_outputs([i for i in self.outputs if i != col])
+        # The remaining columns keep the constraints among themselves.
+        self.Cd = [block for block in (
+            [c for c in block if c != col] for block in self.Cd)
+            if len(block) > 1]
+        self.Ci = [pair for pair in self.Ci if col not in pair]
         self._loom_path = None
         # Update composite flag.
         self._update_is_composite()
-- 
2.43.0


From 8b59fd5539f2e365855bda9ad3b00a727c499f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:08 +0000
Subject: [PATCH 51/56] fix: regressions: metadata shares no data, counts or
 estimators with the model

---
 src/regressions/forest.py | 10 +++++-----
 src/regressions/linreg.py |  2 +-
 src/regressions/ols.py    |  6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/regressions/forest.py b/src/regressions/forest.py
index 78d7c1a..a7ff7ce 100644
--- a/src/regressions/forest.py
+++ b/src/regressions/forest.py
@@ -234,8 +234,8 @@ class RandomForest(CGpm):
         metadata['outputs'] = self.outputs
         metadata['inputs'] = self.inputs
         metadata['N'] = self.N
-        metadata['data'] = {'x': self.data.x, 'Y': self.data.Y}
-        metadata['counts'] = self.counts
+        metadata['data'] = {'x': self.data.x.copy(), 'Y': self.data.Y.copy()}
+        metadata['counts'] = list(self.counts)
         metadata['distargs'] = self.get_distargs()
         metadata['hypers'] = self.get_hypers()
         metadata['params'] = self.get_params()
@@ -255,12 +255,12 @@ class RandomForest(CGpm):
         # Unpickle the sklearn forest.
         forest = cPickle.loads(
             base64.b64decode(metadata['params']['forest_binary']))
-        metadata['params']['forest'] = forest
+        params = dict(metadata['params'], forest=forest)
         forest = cls(
             outputs=metadata['outputs'],
             inputs=metadata['inputs'],
             hypers=metadata['hypers'],
-            params=metadata['params'],
+            params=params,
             distargs=metadata['distargs'],
             rng=rng)
         # json keys are strings -- convert back to integers.
@@ -268,5 +268,5 @@ class RandomForest(CGpm):
         Y = ((int(k), v) for k, v in metadata['data']['Y'].iteritems())
         forest.data = Data(x=OrderedDict(x), Y=OrderedDict(Y))
         forest.N = metadata['N']
-        forest.counts = metadata['counts']
+        forest.counts = list(metadata['counts'])
         return forest
diff --git a/src/regressions/linreg.py b/src/regressions/linreg.py
index bf0d653..ebd7d95 100644
--- a/src/regressions/linreg.py
+++ b/src/regressions/linreg.py
@@ -343,7 +343,7 @@ class LinearRegression(CGpm):
         metadata['outputs'] = self.outputs
         metadata['inputs'] = self.inputs
         metadata['N'] = self.N
-        metadata['data'] = {'x': self.data.x, 'Y': self.data.Y}
+        metadata['data'] = {'x': self.data.x.copy(), 'Y': self.data.Y.copy()}
         metadata['distargs'] = self.get_distargs()
         metadata['hypers'] = dict(
             self.get_hypers(),
diff --git a/src/regressions/ols.py b/src/regressions/ols.py
index 7acaf9c..3de9d55 100644
--- a/src/regressions/ols.py
+++ b/src/regressions/ols.py
@@ -217,7 +217,7 @@ class OrdinaryLeastSquares(CGpm):
         metadata['outputs'] = self.outputs
         metadata['inputs'] = self.inputs
         metadata['N'] = self.N
-        metadata['data'] = {'x': self.data.x, 'Y': self.data.Y}
+        metadata['data'] = {'x': self.data.x.copy(), 'Y': self.data.Y.copy()}
         metadata['distargs'] = self.get_distargs()
         metadata['params'] = self.get_params()
         metadata['factory'] = ('cgpm.regressions.ols', 'OrdinaryLeastSquares')
@@ -236,11 +236,11 @@ class OrdinaryLeastSquares(CGpm):
         # Unpickle the sklearn ols.
         skl_ols = cPickle.loads(
             base64.b64decode(metadata['params']['regressor_binary']))
-        metadata['params']['regressor'] = skl_ols
+        params = dict(metadata['params'], regressor=skl_ols)
         ols = cls(
             outputs=metadata['outputs'],
             inputs=metadata['inputs'],
-            params=metadata['params'],
+            params=params,
             distargs=metadata['distargs'],
             rng=rng)
         # json keys are strings -- convert back to integers.
-- 
2.43.0


From 89f239ae98856ebb3dd1c55debbf2443fd0e900d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:08 +0000
Subject: [PATCH 52/56] fix: VsCGpm: from_metadata leaves the observations in
 the metadata as they are

---
 src/venturescript/vscgpm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/venturescript/vscgpm.py b/src/venturescript/vscgpm.py
index cc1906f..f10796e 100644
--- a/src/venturescript/vscgpm.py
+++ b/src/venturescript/vscgpm.py
@@ -180,7 +180,7 @@ class VsCGpm(CGpm):
         )
         # Restore the observations. We need to convert string keys to integers.
         # XXX Eliminate this terrible defaultdict hack. See Github #187.
-        obs_converted = VsCGpm._obs_from_json(metadata['obs'])
+        obs_converted = VsCGpm._obs_from_json(copy.deepcopy(metadata['obs']))
         cgpm.obs = defaultdict(lambda: defaultdict(dict))
         for key, value in obs_converted.iteritems():
             cgpm.obs[key] = defaultdict(dict, value)
-- 
2.43.0


From cbe7293ee0334b6c4f047b7a03cbf373b8041c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:08 +0000
Subject: [PATCH 53/56] fix: Engine, View: metadata is not changed by
 restoring, nor by the model it came from

---
 src/crosscat/engine.py | 7 +++----
 src/mixtures/view.py   | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/crosscat/engine.py b/src/crosscat/engine.py
index 1c79e4f..706374e 100644
--- a/src/crosscat/engine.py
+++ b/src/crosscat/engine.py
@@ -410,15 +410,14 @@ class Engine(object):
             rng=rng,
             multiprocess=multiprocess)
         # Repopulate the states with the dataset.
-        for m in metadata['states']:
-            m['X'] = metadata['X']
-        num_states = len(metadata['states'])
+        states = [dict(m, X=metadata['X']) for m in metadata['states']]
+        num_states = len(states)
         def retrieve_state((state, seed)):
             return State.from_metadata(state, rng=gu.gen_rng(seed))
         mapper = parallel_map if multiprocess else map
         engine.states = mapper(
             retrieve_state,
-            zip(metadata['states'], engine._get_seeds(num_states)))
+            zip(states, engine._get_seeds(num_states)))
         return engine
 
     def to_pickle(self, fileptr):
diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index f8e2037..533aed5 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -601,7 +601,7 @@ class View(CGpm):
         metadata = dict()
 
         # Dataset.
-        metadata['X'] = self.X
+        metadata['X'] = {c: list(self.X[c]) for c in self.X.keys()}
         metadata['outputs'] = self.outputs
 
         # View partition data.
-- 
2.43.0


From 773ac9a4644cd992f24dfbe01caac2d97f58db01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:08 +0000
Subject: [PATCH 54/56] fix: State: an added column is copied, not shared with
 the caller or other states

---
 src/crosscat/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 61c8222..3fca4c1 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -227,7 +227,7 @@ class State(CGpm):
         )
         D.transition_hyper_grids(T)
         # Load the data, which is the last step that may reject T.
-        self.X[col] = T
+        self.X[col] = list(T)
         try:
             view.incorporate_dim(D)
         except Exception:
-- 
2.43.0


From 4e21a77335ddb1192297a5f78e59eb0f734ea710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:00 +0000
Subject: [PATCH 55/56] fix: State: a column that a conditional column takes as
 input is not removed

---
 src/crosscat/state.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 3fca4c1..ddff82e 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -253,6 +253,11 @@ class State(CGpm):
             raise ValueError('State has only one dim, cannot unincorporate.')
         if col not in self.outputs:
             raise ValueError('col does not exist: %s, %s.')
+        # Conditional dims cannot do without their inputs.
+        dependents = [d.index for d in self.dims() if col in d.inputs[1:]]
+        if dependents:
+            raise ValueError('Cannot unincorporate col %s, an input of: %s.'
+                % (col, dependents))
         # Find the dim and its view.
         d_del = self.dim_for(col)
         v_del = self.Zv(col)
-- 
2.43.0


From 8003e1e179ef44e604d025c8fbd38cc103503a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:16 +0000
Subject: [PATCH 56/56] fix: Dim: set_hypers copies the hyperparameters given

---
 src/mixtures/dim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mixtures/dim.py b/src/mixtures/dim.py
index 099d270..793b038 100644
--- a/src/mixtures/dim.py
+++ b/src/mixtures/dim.py
@@ -207,7 +207,7 @@ class Dim(CGpm):
         return self.aux_model.name()
 
     def set_hypers(self, hypers):
-        self.hypers = hypers
+        self.hypers = dict(hypers)
         for model in self.clusters.values():
             model.set_hypers(hypers)
         self.aux_model = self.create_aux_model()
-- 
2.43.0

