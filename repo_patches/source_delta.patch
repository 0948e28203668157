From 9cdbbd16f91cbab1b5d719f1bd4e5c820ffe81fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:47 +0000
Subject: [PATCH 01/53] fix: weight the current residuals with z_weight in
 BayesianEIVRegression.fit

z_weight was overwritten with a copy of x_weight, so the covariance of the
output was ignored.
---
 src/models/error_in_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/error_in_variable.py b/src/models/error_in_variable.py
index 345a477..5238fc4 100644
--- a/src/models/error_in_variable.py
+++ b/src/models/error_in_variable.py
@@ -207,7 +207,7 @@ class BayesianEIVRegression(GridIdentificationModel, MisfitWeightedModel):
         if x_weight is not None:
             x_weight = sp.csr_matrix(x_weight, dtype=cp.float32)
         if z_weight is not None:
-            z_weight = sp.csr_matrix(x_weight, dtype=cp.float32)
+            z_weight = sp.csr_matrix(z_weight, dtype=cp.float32)
 
         y_mat = y_init
         M, mu, penalty = self.prior.log_distribution(y.get() if conf.GPU_AVAILABLE else y)
-- 
2.43.0


From 6134082ff8bcde0b93d61436b4b446e0ba7aff1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:47 +0000
Subject: [PATCH 02/53] fix: make_complex_matrix sliced with floats and always
 raised TypeError

---
 src/models/gpu_matrix_operations.py | 2 +-
 src/models/matrix_operations.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/models/gpu_matrix_operations.py b/src/models/gpu_matrix_operations.py
index 9183c68..3280446 100644
--- a/src/models/gpu_matrix_operations.py
+++ b/src/models/gpu_matrix_operations.py
@@ -93,4 +93,4 @@ def make_complex_matrix(m):
     :param m: block 2x2 real matrix as numpy/scipy array
     :return: complex matrix as numpy/scipy array
     """
-    return m[:m.shape[0]/2, :m.shape[1]/2] + 1j * m[m.shape[0]/2:, :m.shape[1]/2]
+    return m[:m.shape[0]//2, :m.shape[1]//2] + 1j * m[m.shape[0]//2:, :m.shape[1]//2]
diff --git a/src/models/matrix_operations.py b/src/models/matrix_operations.py
index c9c93e9..63c9bb0 100644
--- a/src/models/matrix_operations.py
+++ b/src/models/matrix_operations.py
@@ -93,7 +93,7 @@ def make_complex_matrix(m):
     :param m: block 2x2 real matrix as numpy/scipy array
     :return: complex matrix as numpy/scipy array
     """
-    return m[:m.shape[0]/2, :m.shape[1]/2] + 1j * m[m.shape[0]/2:, :m.shape[1]/2]
+    return m[:m.shape[0]//2, :m.shape[1]//2] + 1j * m[m.shape[0]//2:, :m.shape[1]//2]
 
 
 def duplication_matrix(n):
-- 
2.43.0


From 432f229dbe40a38d7264a502e09bb391028c05f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:47 +0000
Subject: [PATCH 03/53] fix: default matrix builders of BayesianRegression
 crashed in fit

fit wraps the builder result in np.array, which does not densify a scipy matrix.
---
 src/models/regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/regression.py b/src/models/regression.py
index 9b576fa..da4cfc3 100644
--- a/src/models/regression.py
+++ b/src/models/regression.py
@@ -53,7 +53,7 @@ class BayesianRegression(GridIdentificationModel):
     """
 
     def __init__(self, prior, lambda_value=10e-2, abs_tol=10e-6, rel_tol=10e-6, max_iterations=50, verbose=True,
-                 dt_matrix_builder=lambda n: sparse.eye(n*n), e_matrix_builder=lambda n: sparse.eye(n*n)):
+                 dt_matrix_builder=lambda n: np.eye(n*n), e_matrix_builder=lambda n: np.eye(n*n)):
         """
         :param prior: Bayesian prior for the estimation
         :param lambda_value: initial or fixed sparsity parameter
-- 
2.43.0


From 1c17fb7b4da887c67c743aa79c0629bd221716a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:47 +0000
Subject: [PATCH 04/53] fix: noise functions failed on integer and numpy scalar
 standard deviations

---
 src/models/noise_transformation.py | 12 ++++++------
 src/simulation/noise.py            |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/models/noise_transformation.py b/src/models/noise_transformation.py
index e50c5bb..5a72083 100644
--- a/src/models/noise_transformation.py
+++ b/src/models/noise_transformation.py
@@ -29,7 +29,7 @@ def exact_noise_covariance(
     :return: covariance matrix (or inverse) as a sparse csc_matrix
     """
     # If we have a vector standard derivation
-    if type(sd_magnitude) is not float and sd_magnitude.size == measurement.shape[1]:
+    if np.ndim(sd_magnitude) > 0 and sd_magnitude.size == measurement.shape[1]:
         real_var = np.zeros(measurement.shape)
         imag_var = np.zeros(measurement.shape)
         cov = np.zeros(measurement.shape)
@@ -58,7 +58,7 @@ def exact_noise_covariance(
 
     # If we have the same standard derivation everywhere
     else:
-        if type(sd_magnitude) is not float and sd_magnitude.size > 1:
+        if np.size(sd_magnitude) > 1:
             sd_magnitude = sd_magnitude[0]
 
         # Vectorize data
@@ -104,7 +104,7 @@ def naive_noise_covariance(
     :return: covariance matrix (or inverse) as a sparse csc_matrix
     """
     # If we have a vector standard derivation
-    if type(sd_magnitude) is not float and sd_magnitude.size == measurement.shape[1]:
+    if np.ndim(sd_magnitude) > 0 and sd_magnitude.size == measurement.shape[1]:
         real_variance = np.zeros(measurement.shape)
         imag_variance = np.zeros(measurement.shape)
         real_imag_covariance = np.zeros(measurement.shape)
@@ -129,7 +129,7 @@ def naive_noise_covariance(
 
     # If we have the same standard derivation everywhere
     else:
-        if type(sd_magnitude) is not float and sd_magnitude.size > 1:
+        if np.size(sd_magnitude) > 1:
             sd_magnitude = sd_magnitude[0]
 
         # Vectorize data
@@ -248,7 +248,7 @@ def average_true_noise_covariance(
     :return: covariance matrix (or inverse) as a sparse csc_matrix
     """
     # If we have a vector standard derivation
-    if type(sd_magnitude) is not float and sd_magnitude.size == measurement.shape[1]:
+    if np.ndim(sd_magnitude) > 0 and sd_magnitude.size == measurement.shape[1]:
         real_variance = np.zeros(measurement.shape)
         imag_variance = np.zeros(measurement.shape)
         real_imag_covariance = np.zeros(measurement.shape)
@@ -267,7 +267,7 @@ def average_true_noise_covariance(
 
     # If we have the same standard derivation everywhere
     else:
-        if type(sd_magnitude) is not float and sd_magnitude.size > 1:
+        if np.size(sd_magnitude) > 1:
             sd_magnitude = sd_magnitude[0]
 
         # Vectorize data
diff --git a/src/simulation/noise.py b/src/simulation/noise.py
index 7c33c45..0e0d354 100644
--- a/src/simulation/noise.py
+++ b/src/simulation/noise.py
@@ -82,7 +82,7 @@ def add_polar_noise_to_measurement(actual_measurement: np.array, magnitude_sd: n
     magnitude, phase = np.abs(actual_measurement), np.angle(actual_measurement)
 
     # Generate magnitude noise, looped for each variable if the standard deviation is an array
-    if type(magnitude_sd) is float or magnitude_sd.size == 1:
+    if np.size(magnitude_sd) == 1:
         magnitude_noise = np.random.normal(0, magnitude_sd, magnitude.shape)
     elif magnitude_sd.size == magnitude.shape[1]:
         magnitude_noise = np.zeros(magnitude.shape)
@@ -92,7 +92,7 @@ def add_polar_noise_to_measurement(actual_measurement: np.array, magnitude_sd: n
         magnitude_noise = np.random.normal(0, magnitude_sd[0], magnitude.shape)
 
     # Generate phase noise
-    if type(phase_sd) is float or phase_sd.size == 1:
+    if np.size(phase_sd) == 1:
         phase_noise = np.random.normal(0, phase_sd, phase.shape)
     elif phase_sd.size == phase.shape[1]:
         phase_noise = np.zeros(phase.shape)
-- 
2.43.0


From c50ed3e2c67c55f4e44aa2cfa5c0d07e97e14df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:47 +0000
Subject: [PATCH 05/53] fix: NetData could not be built from buses without
 lines

---
 src/simulation/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/network.py b/src/simulation/network.py
index 25eb560..1b239b6 100644
--- a/src/simulation/network.py
+++ b/src/simulation/network.py
@@ -18,7 +18,7 @@ class NetData(Net):
     def __init__(self, ns: list=None, ls: list=None, other=None):
         Net.__init__(self, other)
         ns = [] if ns is None else ns
-        ls = [] if ns is None else ls
+        ls = [] if ls is None else ls
 
         self.create_buses(ns)
         self.create_lines(ls)
-- 
2.43.0


From bb4a25ede8bdcba873885c6f715b89c3b5e8b5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:47 +0000
Subject: [PATCH 06/53] fix: NetData.create_line never found its buses, whose
 names are strings

---
 src/simulation/network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulation/network.py b/src/simulation/network.py
index 1b239b6..e31b1b4 100644
--- a/src/simulation/network.py
+++ b/src/simulation/network.py
@@ -58,8 +58,8 @@ class NetData(Net):
         """
         if f > t:
             f, t = t, f
-        pp.create_line_from_parameters(self, pp.get_element_index(self, "bus", f),
-                                       pp.get_element_index(self, "bus", t),
+        pp.create_line_from_parameters(self, pp.get_element_index(self, "bus", str(f)),
+                                       pp.get_element_index(self, "bus", str(t)),
                                        l, r / l, x / l, 0, 1e10, "(" + str(f) + "," + str(t) + ")")
         return self
 
-- 
2.43.0


From 1f6d3066c4470ad85feec41e186d3ab5cb27b325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:47 +0000
Subject: [PATCH 07/53] fix: create_lines_from_ybus looked up nominal voltages
 by label, not position

The elements of y_bus are ordered as bus.index, which need not be 0..n-1.
---
 src/simulation/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/network.py b/src/simulation/network.py
index e31b1b4..ee46691 100644
--- a/src/simulation/network.py
+++ b/src/simulation/network.py
@@ -92,7 +92,7 @@ class NetData(Net):
         for i in range(y_bus.shape[0]):
             for j in range(i):
                 if np.abs(y_bus[i, j]) > 0:
-                    y = -y_bus[i, j]/(self.bus.vn_kv[i]*self.bus.vn_kv[i])*self.sn_mva
+                    y = -y_bus[i, j]/(self.bus.vn_kv.iloc[i]*self.bus.vn_kv.iloc[i])*self.sn_mva
                     pp.create_line_from_parameters(self, pp.get_element_index(self, "bus", str(self.bus.index[i])),
                                                    pp.get_element_index(self, "bus", str(self.bus.index[j])),
                                                    1.0, np.real(1.0/y), np.imag(1.0/y), 0, 1e10,
-- 
2.43.0


From 6d677128533c214bd06f8ed1ec4b3788cb65bad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:47 +0000
Subject: [PATCH 08/53] fix: remove_lines removed buses instead of lines

---
 src/simulation/abstract_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/abstract_network.py b/src/simulation/abstract_network.py
index 5b1f7c9..d043669 100644
--- a/src/simulation/abstract_network.py
+++ b/src/simulation/abstract_network.py
@@ -56,7 +56,7 @@ class Net(pp.pandapowerNet, ABC):
         pp.drop_lines(self, line)
 
     def remove_lines(self, lines):
-        pp.drop_buses(self, lines)
+        pp.drop_lines(self, lines)
 
     def give_passive_nodes(self):
         """
-- 
2.43.0


From 523c9f681c5282913ed1322fa10e5007fd7d9aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:47 +0000
Subject: [PATCH 09/53] fix: NetData3P.make_y_bus always failed, sequence
 matrices were not kept

---
 src/simulation/network_3ph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulation/network_3ph.py b/src/simulation/network_3ph.py
index f6abec3..f7b0ee2 100644
--- a/src/simulation/network_3ph.py
+++ b/src/simulation/network_3ph.py
@@ -104,7 +104,8 @@ class NetData3P(Net):
         :return: Admittance matrix as numpy array
         """
         run_net = self.deepcopy()
-        pp.runpp_3ph(run_net, numba=False)
+        # pandapower only keeps the zero and negative sequence matrices when asked to recycle them
+        pp.runpp_3ph(run_net, numba=False, recycle={"bus_pq": False, "trafo": False, "gen": False, "Ybus": True})
 
         if type(run_net['_ppc0']['internal']['Ybus']) is not np.ndarray:
             y_bus0 = run_net['_ppc0']['internal']['Ybus'].todense()
-- 
2.43.0


From bd1a748571600b173dc3290dafe2c0ca7033744f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:47 +0000
Subject: [PATCH 10/53] fix: plot_series with labels raised AttributeError

---
 src/identification/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/identification/utils.py b/src/identification/utils.py
index c7a38e8..021d6bb 100644
--- a/src/identification/utils.py
+++ b/src/identification/utils.py
@@ -131,7 +131,7 @@ def plot_series(m: np.array, name: str, labels=None, s=10, colormap='hsv', ar=No
         if labels is None or len(labels) != m.shape[1]:
             ax1.plot(np.arange(m.shape[0]), m[:, i], linewidth=s, linestyle='solid', color=cmap[i])
         else:
-            ax1.scaplottter(np.arange(m.shape[0]), m[:, i], linewidth=s,
+            ax1.plot(np.arange(m.shape[0]), m[:, i], linewidth=s,
                             linestyle='solid', color=cmap[i], label=labels[i])
             plt.legend(loc='upper right')
     with open(DATA_DIR / ("tikz/" + name + ".tex"), 'w') as f:
-- 
2.43.0


From da5aa2580021c058b15b232fbf98dacbd8199a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:33 +0000
Subject: [PATCH 11/53] fix: reduce_network mixed indices before and after the
 removal of the PCC

The measurements keep the column of the PCC, so indices shifted after its
removal from y_bus picked the wrong loads, or reduced the wrong node, as soon
as the PCC is not the last bus.
---
 src/simulation/run.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/simulation/run.py b/src/simulation/run.py
index e0f3961..2e076f5 100644
--- a/src/simulation/run.py
+++ b/src/simulation/run.py
@@ -275,20 +275,21 @@ def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, verbose
     idx_todel = list(set(hidden_idx).union(passive_idx))
     hidden_idx = [idx for idx in hidden_idx if idx not in pcc_idx]
 
+    # Average loads of the hidden nodes, using the indices of the measurements
+    shunts = np.zeros(y_bus.shape[0], dtype=y_bus.dtype)
+    shunts[hidden_idx] = np.divide(np.mean(current[:, hidden_idx], axis=0), np.mean(voltage[:, hidden_idx], axis=0))
+    y_bus = y_bus + np.diag(shunts)
+    idx_tored = list(set(hidden_idx).union(passive_idx).difference(pcc_idx))
+
     # subKron reducing the ext_grid
     if not laplacian:
         y_bus = np.delete(np.delete(y_bus, pcc_idx, axis=1), pcc_idx, axis=0)
 
         # Shift larger indices because y_bus gets smaller
-        for i in pcc_idx:
-            hidden_idx = [(idx - 1 if idx > i else idx) for idx in hidden_idx]
-            passive_idx = [(idx - 1 if idx > i else idx) for idx in passive_idx]
+        idx_tored = [idx - sum(i < idx for i in pcc_idx) for idx in idx_tored]
 
     # Kron reduction of passive and hidden nodes
-    shunts = np.zeros(y_bus.shape[0], dtype=y_bus.dtype)
-    shunts[hidden_idx] = np.divide(np.mean(current[:, hidden_idx], axis=0), np.mean(voltage[:, hidden_idx], axis=0))
-    y_bus = net.kron_reduction(list(set(hidden_idx).union(passive_idx).difference(pcc_idx)),
-                               y_bus + np.diag(shunts))
+    y_bus = net.kron_reduction(idx_tored, y_bus)
     pprint("Done!")
     pprint("reduced nodes: " + str(np.array(idx_todel) + 1))
 
-- 
2.43.0


From 3c939b113d89132fb074a5d21f8d37316a63aa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:33 +0000
Subject: [PATCH 12/53] fix: hidden loads entered the Kron reduction with the
 wrong sign

With i = v @ y and i_h = s v_h at a hidden node, v_h (s - y_hh) = v_k y_kh,
so the node reduces through y_hh - s.
---
 src/simulation/run.py    | 2 +-
 src/simulation/run3ph.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulation/run.py b/src/simulation/run.py
index 2e076f5..ae2d8b2 100644
--- a/src/simulation/run.py
+++ b/src/simulation/run.py
@@ -278,7 +278,7 @@ def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, verbose
     # Average loads of the hidden nodes, using the indices of the measurements
     shunts = np.zeros(y_bus.shape[0], dtype=y_bus.dtype)
     shunts[hidden_idx] = np.divide(np.mean(current[:, hidden_idx], axis=0), np.mean(voltage[:, hidden_idx], axis=0))
-    y_bus = y_bus + np.diag(shunts)
+    y_bus = y_bus - np.diag(shunts)
     idx_tored = list(set(hidden_idx).union(passive_idx).difference(pcc_idx))
 
     # subKron reducing the ext_grid
diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index e362fda..dd96467 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -370,7 +370,7 @@ def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, reduce_
             shunts[i] = np.divide(np.mean(current[:, i], axis=0), np.mean(voltage[:, i], axis=0))
 
     idx_tored = np.array(idx_tored)
-    y_bus = admittance_phase_to_sequence(y_bus + np.diag(shunts))
+    y_bus = admittance_phase_to_sequence(y_bus - np.diag(shunts))
     y_bus = np.kron(net.kron_reduction(idx_tored[idx_tored % 3 == 0]/3, y_bus[::3,::3]), np.diag([1, 0, 0])) \
             + np.kron(net.kron_reduction((idx_tored[idx_tored % 3 == 1] - 1)/3, y_bus[1::3,1::3]), np.diag([0, 1, 0])) \
             + np.kron(net.kron_reduction((idx_tored[idx_tored % 3 == 2] - 2)/3, y_bus[2::3,2::3]), np.diag([0, 0, 1]))
-- 
2.43.0


From af02e8f82e3616a061f4c94ce3a8ea6c610ad077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:33 +0000
Subject: [PATCH 13/53] fix: three-phase reduce_network ignored the removal of
 the PCC in its indices

---
 src/simulation/run3ph.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index dd96467..af18b47 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -351,7 +351,7 @@ def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, reduce_
     for idx in net.ext_grid.bus.values:
         i = 3 * net.bus.index.tolist().index(idx)
         idx_todel.extend([i, i + 1, i + 2])
-        y_bus = np.delete(np.delete(y_bus, [i, i + 1, i + 2], axis=1), [i, i + 1, i + 2], axis=0)
+    pcc_idx = list(idx_todel)
 
     passive_nodes = net.give_passive_nodes()
     if not reduce_single:
@@ -366,16 +366,22 @@ def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, reduce_
             idx_tored.append(3 * net.bus.index.tolist().index(idx) + ph)
         for idx in hidden_nodes:
             i = 3 * net.bus.index.tolist().index(idx) + ph
+            if i in pcc_idx:
+                continue
             idx_tored.append(i)
             shunts[i] = np.divide(np.mean(current[:, i], axis=0), np.mean(voltage[:, i], axis=0))
 
-    idx_tored = np.array(idx_tored)
-    y_bus = admittance_phase_to_sequence(y_bus - np.diag(shunts))
+    idx_todel.extend(idx_tored)
+    y_bus = y_bus - np.diag(shunts)
+    y_bus = np.delete(np.delete(y_bus, pcc_idx, axis=1), pcc_idx, axis=0)
+
+    # Shift larger indices because y_bus gets smaller
+    idx_tored = np.array([idx - sum(i < idx for i in pcc_idx) for idx in idx_tored], dtype=np.int64)
+    y_bus = admittance_phase_to_sequence(y_bus)
     y_bus = np.kron(net.kron_reduction(idx_tored[idx_tored % 3 == 0]/3, y_bus[::3,::3]), np.diag([1, 0, 0])) \
             + np.kron(net.kron_reduction((idx_tored[idx_tored % 3 == 1] - 1)/3, y_bus[1::3,1::3]), np.diag([0, 1, 0])) \
             + np.kron(net.kron_reduction((idx_tored[idx_tored % 3 == 2] - 2)/3, y_bus[2::3,2::3]), np.diag([0, 0, 1]))
     y_bus = admittance_sequence_to_phase(y_bus)
-    idx_todel.extend(idx_tored.tolist())
 
     pprint("Done!")
     pprint("reduced elements: " + str(np.array(idx_todel) + 1))
-- 
2.43.0


From 3a37f73e2cd168696238702a96b5c120a52e2f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:33 +0000
Subject: [PATCH 14/53] fix: three-phase PMU ratings were not ordered as the
 measurements

Measurements interleave the phases of each bus, and the rating of the external
grid belongs at the position of its bus.
---
 src/simulation/run3ph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index af18b47..97be698 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -246,13 +246,13 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
     pmu_ratings = np.tile(pmu_safety_factor, (1, len(net.bus.index))) * total_loads
 
     # External grid connections provide power for all loads
-    for i in range(len(net.load.bus)):
-        if net.load.bus.iloc[i] in net.ext_grid.bus.values:
+    for i in range(len(net.bus.index)):
+        if net.bus.index[i] in net.ext_grid.bus.values:
             pmu_ratings[0, i] = np.sum(pmu_ratings[0, :])
             pmu_ratings[1, i] = np.sum(pmu_ratings[1, :])
             pmu_ratings[2, i] = np.sum(pmu_ratings[2, :])
 
-    pmu_ratings = pmu_ratings.reshape((3 * len(net.bus.index),))
+    pmu_ratings = pmu_ratings.T.reshape((3 * len(net.bus.index),))
 
     ts = np.linspace(0, np.max(times), round(np.max(times) * fmeas))
     fparam = int(np.floor(ts.size / steps))
-- 
2.43.0


From 5134defa59f9c49c92d07adeb9d4416b9f5c5df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:33 +0000
Subject: [PATCH 15/53] fix: three-phase equivalent noise lost the filtering
 factor of the measurements

---
 src/simulation/run3ph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index 97be698..2fe3d87 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -256,6 +256,7 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
 
     ts = np.linspace(0, np.max(times), round(np.max(times) * fmeas))
     fparam = int(np.floor(ts.size / steps))
+    fparam_ret = fparam
 
     if noise_params is not None:
         # Noise Generation
@@ -316,7 +317,7 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
         noisy_voltage, noisy_current, voltage, current = sim_IV["v"], sim_IV["i"], sim_IV["w"], sim_IV["j"]
         pprint("Done!")
 
-    return noisy_voltage, noisy_current, voltage, current, pmu_ratings, fparam
+    return noisy_voltage, noisy_current, voltage, current, pmu_ratings, fparam_ret
 
 
 def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, reduce_single=True, verbose=True):
-- 
2.43.0


From 7e42c3c90c7cf48f776cdd18dbd81e1ed0765d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:33 +0000
Subject: [PATCH 16/53] fix: three-phase Gaussian loads were unusable

The generator was not imported, its active and reactive loads were interleaved,
and the symmetric loads had the size of the asymmetric ones.
---
 src/simulation/run3ph.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index 2fe3d87..3d97d2d 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -2,7 +2,7 @@ import numpy as np
 
 from conf import conf, simulation
 from src.simulation.simulation_3ph import SimulatedNet3P
-from src.simulation.load_profile import load_profile_from_numpy
+from src.simulation.load_profile import load_profile_from_numpy, generate_gaussian_load
 from src.simulation.noise import filter_and_resample_measurement, add_polar_noise_to_measurement
 from src.simulation import net_templates_3ph
 from src.simulation.net_templates_3ph import ieee123_types
@@ -119,7 +119,10 @@ def generate_loads(net, load_params=None, verbose=True):
                                                    [net.asymmetric_load.q_c_mvar[net.asymmetric_load.q_c_mvar.index[i]]
                                                     for i in range(len(net.asymmetric_load.q_c_mvar))]))
 
-            load_p, load_q = np.zeros_like(load_asym[0]), np.zeros_like(load_asym[0])
+            # Ordered as active loads of phases a, b and c, then reactive ones
+            load_asym = (load_asym[0], load_asym[2], load_asym[4], load_asym[1], load_asym[3], load_asym[5])
+            load_p = np.zeros((len(times), len(net.load.p_mw)))
+            load_q = np.zeros((len(times), len(net.load.q_mvar)))
             pprint("Done!")
 
         a = simulation.load_constantness
-- 
2.43.0


From a694df9c1972cf82f06ba2e8003964aa2c46da16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:33 +0000
Subject: [PATCH 17/53] fix: simulations started in the same second shared
 their output folder

Results of one simulation were overwritten by, or mixed with, the other ones.
---
 src/simulation/simulation.py     | 3 ++-
 src/simulation/simulation_3ph.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/simulation/simulation.py b/src/simulation/simulation.py
index 07cebfd..a2931df 100644
--- a/src/simulation/simulation.py
+++ b/src/simulation/simulation.py
@@ -2,6 +2,7 @@ from dataclasses import dataclass
 from datetime import datetime
 from pathlib import Path
 from typing import Tuple
+from uuid import uuid4
 
 import numpy as np
 import pandapower as pp
@@ -73,7 +74,7 @@ class SimulatedNet(NetData):
                      variable='q_mvar', data_source=load_df, profile_name=self.load.index)
 
         # Create file path and writer
-        timed_out_path = output_path / f"sim_{datetime.now().strftime('%Y%m%d_%H%M%S')}"
+        timed_out_path = output_path / f"sim_{datetime.now().strftime('%Y%m%d_%H%M%S')}_{uuid4().hex}"
         ow = OutputWriter(controlled_net, output_path=timed_out_path, output_file_type=".csv")
 
         # Define variables to save
diff --git a/src/simulation/simulation_3ph.py b/src/simulation/simulation_3ph.py
index 3b4cba4..4bef45a 100644
--- a/src/simulation/simulation_3ph.py
+++ b/src/simulation/simulation_3ph.py
@@ -2,6 +2,7 @@ from dataclasses import dataclass
 from datetime import datetime
 from pathlib import Path
 from typing import Tuple
+from uuid import uuid4
 
 import numpy as np
 import pandapower as pp
@@ -86,7 +87,7 @@ class SimulatedNet3P(NetData3P):
                              variable=variables[i], data_source=load_df, profile_name=self.asymmetric_load.index)
 
         # Create file path and writer
-        timed_out_path = output_path / f"sim_{datetime.now().strftime('%Y%m%d_%H%M%S')}"
+        timed_out_path = output_path / f"sim_{datetime.now().strftime('%Y%m%d_%H%M%S')}_{uuid4().hex}"
         ow = OutputWriter(controlled_net, output_path=timed_out_path, output_file_type=".csv", log_variables=[])
 
         # Define variables to save
-- 
2.43.0


From 288778c9efbf294016b94e175b01654168d21ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:33 +0000
Subject: [PATCH 18/53] fix: simulate added the PCC to the configured hidden
 nodes for all later runs

---
 simulate_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulate_network.py b/simulate_network.py
index 75e4cbe..fca4046 100644
--- a/simulate_network.py
+++ b/simulate_network.py
@@ -41,7 +41,7 @@ def simulate(network, active_profiles, reactive_profiles, gaussian_loads, loads,
     net, bus_data, _ = run3ph.make_net(network) if three_phased else run.make_net(network)
 
     # How to deal with hidden nodes
-    hidden_nodes = conf.simulation.hidden_nodes
+    hidden_nodes = list(conf.simulation.hidden_nodes)
     constant_load_nodes = hidden_nodes if conf.simulation.constant_load_hidden_nodes else None
     if not laplacian and not three_phased:
         for b in bus_data:
-- 
2.43.0


From 794b5b80860b52f8647d427fa833472acc6fd7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:33 +0000
Subject: [PATCH 19/53] fix: a phase without data was identified from the data
 of phase 1

---
 identify_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/identify_network.py b/identify_network.py
index 9055694..9830c6b 100644
--- a/identify_network.py
+++ b/identify_network.py
@@ -49,7 +49,7 @@ def identify(network, max_iterations, standard, bayesian_eiv, continue_id, phase
     current, voltage, y_bus = sim_STLS['j'], sim_STLS['w'], sim_STLS['y']
     pmu_ratings, fparam, phases_ids = sim_STLS['p'], sim_STLS['f'], sim_STLS['h']
 
-    if not three_phased and np.any(phases_ids != 1):
+    if not three_phased and np.any(phases_ids != int(phases)):
         if not np.any(phases_ids == int(phases)):
             raise IndexError("Error: Trying to identify phase or sequence " + phases +
                              " but no data is available for it")
-- 
2.43.0


From 3a7400e010e4e7cece8b60596ab95ac4cb5e065b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:33 +0000
Subject: [PATCH 20/53] fix: continuing an identification crashed when joining
 the iterations

---
 identify_network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/identify_network.py b/identify_network.py
index 9830c6b..7dca950 100644
--- a/identify_network.py
+++ b/identify_network.py
@@ -98,8 +98,8 @@ def identify(network, max_iterations, standard, bayesian_eiv, continue_id, phase
                                                                         weighted, max_iterations if redo_STLS else 0,
                                                                         not unsynchronized, verbose)
 
-    if continue_id:
-        sparse_tls_cov_iterations = sparse_tls_cov_old_iterations.extend(sparse_tls_cov_iterations)
+    if continue_id and redo_STLS and max_iterations > 0:
+        sparse_tls_cov_iterations = list(sparse_tls_cov_old_iterations) + list(sparse_tls_cov_iterations)
 
         pprint("Saving updated result...")
         sim_STLS = {'y': y_sparse_tls_cov, 'i': sparse_tls_cov_iterations}
-- 
2.43.0


From 4786323a51f6a6c8b3b9020fc96eeab7d474e610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:33 +0000
Subject: [PATCH 21/53] fix: the error covariance analysis raised NameError

---
 identify_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/identify_network.py b/identify_network.py
index 7dca950..4ba2089 100644
--- a/identify_network.py
+++ b/identify_network.py
@@ -107,7 +107,7 @@ def identify(network, max_iterations, standard, bayesian_eiv, continue_id, phase
         pprint("Done!")
 
     # Error covariance analysis
-    if uncertainty and not three_phases and not unsynchronized:
+    if uncertainty and not three_phased and not unsynchronized:
         fim_wtls, cov_wtls, expected_max_rrms = run_fcns.eiv_fim(name, voltage, current,
                                                                  voltage_magnitude_sd + 1j * voltage_phase_sd,
                                                                  current_magnitude_sd + 1j * current_phase_sd,
-- 
2.43.0


From 60816e179a234c2dd16d41dda9a6091395960ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:33 +0000
Subject: [PATCH 22/53] fix: three-phase Bayesian results could not be loaded
 back

Each sequence tried to load the result of all sequences as its own.
---
 src/identification/run3ph.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/identification/run3ph.py b/src/identification/run3ph.py
index cb0e983..c96e524 100644
--- a/src/identification/run3ph.py
+++ b/src/identification/run3ph.py
@@ -245,7 +245,16 @@ def bayesian_eiv(name, voltage, current, phases_ids, voltage_sd_polar, current_s
 
     y_fin = np.zeros_like(y_init)
 
-    if np.any(phases_ids == 0):
+    if np.any(phases_ids == 0) and not (max_iterations > 0 and voltage is not None and current is not None):
+        pprint("Loading STLS result...")
+        sim_STLS = np.load(DATA_DIR / ("simulations_output/bayesian_results_" + name + ".npz"), allow_pickle=True)
+        y_fin = sim_STLS["y"]
+        sparse_tls_cov_iterations = sim_STLS["i"]
+        pprint("Done!")
+
+        return y_fin, sparse_tls_cov_iterations
+
+    elif np.any(phases_ids == 0):
         iterations = [None, None, None]
         for i in range(3):
             pprint("Identifying phase/sequence " + str(i))
-- 
2.43.0


From 2a6c4c8938c66cee48cbb40ebfc762c61f881c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:33 +0000
Subject: [PATCH 23/53] fix: plot_results always selected the voltages of phase
 1

---
 plot_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plot_results.py b/plot_results.py
index 2a18995..2ebd3ca 100644
--- a/plot_results.py
+++ b/plot_results.py
@@ -42,7 +42,7 @@ def plot_results(network, max_plot_y, max_plot_err, color_scale, sequence, verbo
 
     correct_component = lambda x: x
     if phases != "012" and phases != "123":
-        idx_todel = (phases_ids != 1).nonzero()
+        idx_todel = (phases_ids != int(str(phases))).nonzero()
         voltage = np.delete(voltage, idx_todel, axis=1)
     elif phases == "012" and not sequence:
         correct_component = admittance_sequence_to_phase
-- 
2.43.0


From 4a3a54ec2fcc8f3bb99544b4ee6a3915dd1223b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:05 +0000
Subject: [PATCH 24/53] fix: remove_line failed on the index of a single line

---
 src/simulation/abstract_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/abstract_network.py b/src/simulation/abstract_network.py
index d043669..4ee5e4a 100644
--- a/src/simulation/abstract_network.py
+++ b/src/simulation/abstract_network.py
@@ -53,7 +53,7 @@ class Net(pp.pandapowerNet, ABC):
         pp.drop_buses(self, bus)
 
     def remove_line(self, line):
-        pp.drop_lines(self, line)
+        pp.drop_lines(self, [line])
 
     def remove_lines(self, lines):
         pp.drop_lines(self, lines)
-- 
2.43.0


From da2c4d1f8ecc4c514d39e9ecde8cd2a935fe46c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:38 +0000
Subject: [PATCH 25/53] fix: sparse priors with a single term could not be
 evaluated

---
 src/models/smooth_prior.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/models/smooth_prior.py b/src/models/smooth_prior.py
index c9a3c2c..0cfb5e6 100644
--- a/src/models/smooth_prior.py
+++ b/src/models/smooth_prior.py
@@ -38,7 +38,7 @@ class SmoothPrior(BayesianPrior):
     GAUSS = 2
 
     def log_distribution(self, x):
-        w = (np.abs(self.L @ x.squeeze() - self.mu) ** (2 - self.gamma)) + self.alpha
+        w = (np.abs(self.L @ x.ravel() - self.mu) ** (2 - self.gamma)) + self.alpha
 
         A = self.L.T @ np.diag(np.divide(1, w)) @ self.L
         b = self.L.T @ np.diag(np.divide(1, w)) @ self.mu
@@ -139,11 +139,11 @@ class SparseSmoothPrior(SmoothPrior):
         self.L = sparse.csr_matrix(self.L)
 
     def log_distribution(self, x):
-        w = (np.abs(self.L @ x.squeeze() - self.mu) ** (2 - self.gamma)) + self.alpha
+        w = (np.abs(self.L @ x.ravel() - self.mu) ** (2 - self.gamma)) + self.alpha
         W = sparse.diags(np.divide(1, w), format='csr')
 
         A = self.L.T @ W @ self.L
-        b = self.L.T @ W @ self.mu.squeeze()
+        b = self.L.T @ W @ self.mu.ravel()
 
         return A, b, np.sum(w)
 
-- 
2.43.0


From 5da95444569d6fd22c98c13af41c627b0dd17872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:37 +0000
Subject: [PATCH 26/53] fix: unweighted EIV objective counted the voltages
 instead of their correction

---
 src/models/error_in_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/error_in_variable.py b/src/models/error_in_variable.py
index 5238fc4..d3fe963 100644
--- a/src/models/error_in_variable.py
+++ b/src/models/error_in_variable.py
@@ -254,7 +254,7 @@ class BayesianEIVRegression(GridIdentificationModel, MisfitWeightedModel):
 
                 # Solve the Delta V sub-problem using projection
                 e_qp = (cp.hstack((x, z)) @ projor)[:, :n]
-                da = vectorize_matrix(e_qp)
+                da = make_real_vector(vectorize_matrix(x - e_qp))
                 AmdA = make_real_matrix(sp.kron(sp.eye(n), e_qp, format='csr') @ DT)
 
                 # Update y equation
-- 
2.43.0


From 7f9b3f4d2fd152886a8cbd8dd500de7e5fd734e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:38 +0000
Subject: [PATCH 27/53] fix: unsynchronised weights of currents used their
 synchronised phases

---
 src/identification/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/identification/run.py b/src/identification/run.py
index 955a7cb..0c9c643 100644
--- a/src/identification/run.py
+++ b/src/identification/run.py
@@ -417,7 +417,7 @@ def bayesian_eiv(name, voltage, current, phases_ids, voltage_sd_polar, current_s
             pprint("Calculating covariance matrices...")
             inv_sigma_voltage = naive_noise_covariance(centered_voltage, np.real(voltage_sd_polar),
                                                           np.imag(voltage_sd_polar) * 100, False)
-            inv_sigma_current = naive_noise_covariance(current, np.real(current_sd_polar) * pmu_ratings,
+            inv_sigma_current = naive_noise_covariance(centered_current, np.real(current_sd_polar) * pmu_ratings,
                                                        np.imag(current_sd_polar), True)
             # invert only diagonal elements (off diagonal is zero)
             inv_sigma_voltage.data = 1.0 / inv_sigma_voltage.data
-- 
2.43.0


From afd5f4ac8af771cc3ddc9b5bdf3f7469b78ab8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:38 +0000
Subject: [PATCH 28/53] fix: unsynchronised identification without weights kept
 the phase synchronisation

---
 src/identification/run.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/identification/run.py b/src/identification/run.py
index 0c9c643..1933b50 100644
--- a/src/identification/run.py
+++ b/src/identification/run.py
@@ -403,6 +403,10 @@ def bayesian_eiv(name, voltage, current, phases_ids, voltage_sd_polar, current_s
         centered_voltage = voltage.copy()
         centered_current = current.copy()
 
+        if not use_pmu_data:
+            centered_voltage = np.abs(voltage.copy())
+            centered_current = ((current * voltage.conj()) / np.abs(voltage)).copy()
+
         if weighted and use_pmu_data:
             pprint("Calculating covariance matrices...")
             inv_sigma_voltage = average_true_noise_covariance(voltage, np.real(voltage_sd_polar),
@@ -411,9 +415,6 @@ def bayesian_eiv(name, voltage, current, phases_ids, voltage_sd_polar, current_s
                                                               np.imag(current_sd_polar), True)
             pprint("Done!")
         elif weighted and not use_pmu_data:
-            centered_voltage = np.abs(voltage.copy())
-            centered_current = ((current * voltage.conj()) / np.abs(voltage)).copy()
-
             pprint("Calculating covariance matrices...")
             inv_sigma_voltage = naive_noise_covariance(centered_voltage, np.real(voltage_sd_polar),
                                                           np.imag(voltage_sd_polar) * 100, False)
-- 
2.43.0


From 31afa47521d80ea639718a4f7f4fd337f1a8658f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:20 +0000
Subject: [PATCH 29/53] fix: fitting a Bayesian model again compared with the
 iterations of the previous fit

---
 src/models/error_in_variable.py | 2 ++
 src/models/regression.py        | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/models/error_in_variable.py b/src/models/error_in_variable.py
index d3fe963..8c7fe1b 100644
--- a/src/models/error_in_variable.py
+++ b/src/models/error_in_variable.py
@@ -180,6 +180,8 @@ class BayesianEIVRegression(GridIdentificationModel, MisfitWeightedModel):
         :param z_weight: inverse covariance matrix of z
         :param y_init: initial guess of y
         """
+        self._iterations = []
+
         #Initialization of parameters
         if conf.GPU_AVAILABLE:
             sp = cusparse
diff --git a/src/models/regression.py b/src/models/regression.py
index da4cfc3..e46aa24 100644
--- a/src/models/regression.py
+++ b/src/models/regression.py
@@ -97,6 +97,8 @@ class BayesianRegression(GridIdentificationModel):
         :param z: output of the system as T-by-n matrix of row measurement vectors as numpy array
         :param y_init: initial guess of y
         """
+        self._iterations = []
+
         #Initialization of parameters
         if conf.GPU_AVAILABLE:
             sp = cusparse
-- 
2.43.0


From 11134a8920dc031a22104accbc65742af69234ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:15 +0000
Subject: [PATCH 30/53] fix: the lasso regression could not be used alone,
 scipy.sparse.linalg was never imported

---
 src/models/regression.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/models/regression.py b/src/models/regression.py
index e46aa24..81744d4 100644
--- a/src/models/regression.py
+++ b/src/models/regression.py
@@ -2,6 +2,7 @@ from typing import Tuple
 
 import numpy as np
 from scipy import sparse
+import scipy.sparse.linalg
 from scipy.linalg import pinv
 from tqdm import tqdm
 
-- 
2.43.0


From a46f2c77380cab2422abb6d17cfaa5e82dc971b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:42 +0000
Subject: [PATCH 31/53] fix: weighted EIV corrected the voltages with the
 transposed estimate of non-symmetric matrices

---
 src/models/error_in_variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/models/error_in_variable.py b/src/models/error_in_variable.py
index 8c7fe1b..33adb73 100644
--- a/src/models/error_in_variable.py
+++ b/src/models/error_in_variable.py
@@ -218,8 +218,8 @@ class BayesianEIVRegression(GridIdentificationModel, MisfitWeightedModel):
         for it in (tqdm(range(self._max_iterations)) if self._verbose else range(self._max_iterations)):
             if z_weight is not None and x_weight is not None:
                 # Create \bar Y from y
-                real_beta_kron = sp.kron(cp.real(y_mat), sp.eye(samples), format='csr')
-                imag_beta_kron = sp.kron(cp.imag(y_mat), sp.eye(samples), format='csr')
+                real_beta_kron = sp.kron(cp.real(y_mat.T), sp.eye(samples), format='csr')
+                imag_beta_kron = sp.kron(cp.imag(y_mat.T), sp.eye(samples), format='csr')
                 underline_y = sp.bmat([[real_beta_kron, -imag_beta_kron],
                                            [imag_beta_kron, real_beta_kron]], format='csr')
 
-- 
2.43.0


From a0903673d25058119c27a3f7c025aabc6a810d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:38 +0000
Subject: [PATCH 32/53] fix: adaptive lasso weights were inverted twice, large
 parameters were penalised most

---
 src/identification/run.py    | 2 +-
 src/identification/run3ph.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/identification/run.py b/src/identification/run.py
index 1933b50..f856ab6 100644
--- a/src/identification/run.py
+++ b/src/identification/run.py
@@ -28,7 +28,7 @@ def build_lasso_prior(nodes, y_ols, laplacian):
         E = elimination_sym_matrix(nodes)
 
     y_sym_ols = unvectorize_matrix(DT @ E @ vectorize_matrix(y_ols), (nodes, nodes))
-    adaptive_lasso = np.divide(1.0, np.power(np.abs(make_real_vector(E @ vectorize_matrix(y_sym_ols))), 1.0))
+    adaptive_lasso = np.abs(make_real_vector(E @ vectorize_matrix(y_sym_ols)))
 
     prior = SparseSmoothPrior(smoothness_param=0.00001, n=len(E @ vectorize_matrix(y_ols))*2)
     prior.add_adaptive_sparsity_prior(np.arange(prior.n), adaptive_lasso, SmoothPrior.LAPLACE)
diff --git a/src/identification/run3ph.py b/src/identification/run3ph.py
index c96e524..aef86be 100644
--- a/src/identification/run3ph.py
+++ b/src/identification/run3ph.py
@@ -25,7 +25,7 @@ def build_lasso_prior(nodes, y_ols, E, DT):
     :param DT: duplication matrix
     """
     y_sym_ols = unvectorize_matrix(DT @ E @ vectorize_matrix(y_ols), (nodes, nodes))
-    adaptive_lasso = np.divide(1.0, np.power(np.abs(make_real_vector(E @ vectorize_matrix(y_sym_ols))), 1.0))
+    adaptive_lasso = np.abs(make_real_vector(E @ vectorize_matrix(y_sym_ols)))
 
     prior = SparseSmoothPrior(smoothness_param=0.00001, n=len(E @ vectorize_matrix(y_ols))*2)
     prior.add_adaptive_sparsity_prior(np.arange(prior.n), adaptive_lasso, SmoothPrior.LAPLACE)
-- 
2.43.0


From 2d889986f1c59e7c008d65d8e166c6457e21d683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:38 +0000
Subject: [PATCH 33/53] fix: the contrast prior on all parameters was centred
 on minus twice their sum

---
 src/identification/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/identification/run.py b/src/identification/run.py
index f856ab6..e493c98 100644
--- a/src/identification/run.py
+++ b/src/identification/run.py
@@ -136,7 +136,7 @@ def build_complex_prior(nodes, lambdaprime, y_tls, laplacian=False,
 
     else:
         prior.add_contrast_prior(indices=np.vstack(tuple(np.split(idx_offdiag, 2))),
-                                 values=-np.sum(np.vstack(tuple(np.split(values_contrast, 2))), axis=1).squeeze(),
+                                 values=np.sum(np.vstack(tuple(np.split(values_contrast, 2))), axis=1).squeeze() / 2,
                                  weights=lambdaprime*np.array([1, -1]),
                                  orders=SmoothPrior.LAPLACE)
 
-- 
2.43.0


From 42036e67726aacf18c38dc28ffe21d252496f3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:38 +0000
Subject: [PATCH 34/53] fix: the suboptimal set of known lines could not be
 selected

---
 src/identification/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/identification/run.py b/src/identification/run.py
index e493c98..0f2b281 100644
--- a/src/identification/run.py
+++ b/src/identification/run.py
@@ -170,7 +170,7 @@ def add_known_lines(nodes, prior, lambdaprime, y_bus, laplacian=False, prior_typ
     tls_bus_weights = np.zeros_like(y_bus)
     tls_bus_centers = np.zeros_like(y_bus)
 
-    if "optimal" in prior_type:
+    if "optimal" in prior_type and "suboptimal" not in prior_type:
         # Node 2
         tls_bus_weights[0, :], tls_bus_weights[:, 0] = (1+1j), (1+1j)
         tls_bus_weights[0, 0] = 0
-- 
2.43.0


From 3d26285370777a535722fd3c860d79f53c9e6d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:38 +0000
Subject: [PATCH 35/53] fix: known lines of Laplacian networks were set on the
 wrong parameters

---
 src/identification/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/identification/run.py b/src/identification/run.py
index 0f2b281..f70a579 100644
--- a/src/identification/run.py
+++ b/src/identification/run.py
@@ -384,7 +384,7 @@ def bayesian_eiv(name, voltage, current, phases_ids, voltage_sd_polar, current_s
                             identification.contrast_each_row, identification.regularize_diag)
 
     if y_exact is not None:
-        prior = add_known_lines(nodes, prior, identification.lambdaprime, y_exact, laplacian=False, prior_type="optimal")
+        prior = add_known_lines(nodes, prior, identification.lambdaprime, y_exact, laplacian=laplacian, prior_type="optimal")
         #prior = build_loads_id_prior(nodes, y_exact)  # Not working!
 
     if laplacian:
-- 
2.43.0


From a557f67b9a232736c25dd2b93323320275aaad94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:59 +0000
Subject: [PATCH 36/53] fix: use the whole Jacobian and the right blocks of the
 weights in the Fisher information

---
 src/models/error_in_variable.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/models/error_in_variable.py b/src/models/error_in_variable.py
index 33adb73..d5a8814 100644
--- a/src/models/error_in_variable.py
+++ b/src/models/error_in_variable.py
@@ -109,20 +109,13 @@ class TotalLeastSquares(GridIdentificationModel, UnweightedModel):
         Ws = (perm.T @ sp.kron(sp.eye(2*n, dtype=cp.float64), Ws) @ perm) + z_cov
 
         #inverse of W
-        w1 = Ws[:, n*samples:][n*samples:, :].diagonal()
+        w1 = Ws[:, :n*samples][:n*samples, :].diagonal()
         w2 = Ws[:, n*samples:][:n*samples, :].diagonal()
-        w3 = Ws[:, :n*samples][:n*samples, :].diagonal()
+        w3 = Ws[:, n*samples:][n*samples:, :].diagonal()
         w1i = sp.diags(1 / (w1 - w2 * (w2 / w3)))
         w3i = sp.diags(1 / (w3 - w2 * (w2 / w1)))
         w2i = sp.diags(-((w2 * w1i) / w3))
-        #F = (A.T @ sp.bmat([[w1i, w2i], [w2i, w3i]], format='csr') @ A).toarray()
-
-        del A
-        del x_cov
-        del z_cov
-        Ar = sp.kron(sp.eye(n, dtype=cp.float64), cp.real(x), format='csr')
-        Ai = sp.kron(sp.eye(n, dtype=cp.float64), cp.imag(x), format='csr')
-        F = sp.bmat([[Ar.T @ w1i @ Ar, Ar.T @ w2i @ Ai], [Ai.T @ w2i @ Ar, Ai.T @ w3i @ Ai]], format='csr').toarray()
+        F = (A.T @ sp.bmat([[w1i, w2i], [w2i, w3i]], format='csr') @ A).toarray()
 
         return F.get() if conf.GPU_AVAILABLE else F, cp.linalg.inv(F).get() if conf.GPU_AVAILABLE else cp.linalg.inv(F)
 
-- 
2.43.0


From 1f61ccb6738320cbec2f7005e6e9de13a11385ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:15 +0000
Subject: [PATCH 37/53] fix: weight the Fisher information by the noise of the
 inputs for non-symmetric parameters

---
 src/models/error_in_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/error_in_variable.py b/src/models/error_in_variable.py
index d5a8814..59167ca 100644
--- a/src/models/error_in_variable.py
+++ b/src/models/error_in_variable.py
@@ -89,7 +89,7 @@ class TotalLeastSquares(GridIdentificationModel, UnweightedModel):
         # Copy data
         #A = np.hstack((cp.real(x), cp.imag(x)))
         A = make_real_matrix(sp.kron(sp.eye(n, dtype=cp.float64), x, format='csr'))
-        y = make_real_vector(vectorize_matrix(y_mat))
+        y = make_real_vector(vectorize_matrix(y_mat.T))
 
         # Use covariances if provided but transform them into sparse
         if x_cov is not None:
-- 
2.43.0


From 771747109886ac2bd7297cdef8434ac867fee5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:28 +0000
Subject: [PATCH 38/53] fix: the Fisher information attributed the noise of the
 inputs to other samples

---
 src/models/error_in_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/error_in_variable.py b/src/models/error_in_variable.py
index 59167ca..e2c3d02 100644
--- a/src/models/error_in_variable.py
+++ b/src/models/error_in_variable.py
@@ -106,7 +106,7 @@ class TotalLeastSquares(GridIdentificationModel, UnweightedModel):
 
         bigy = sp.kron(sp.eye(samples, dtype=cp.float64), y[:, None], format='csr')
         Ws = bigy.T @ sp.kron(perm @ x_cov @ perm.T, sp.eye(n, dtype=cp.float64)) @ bigy
-        Ws = (perm.T @ sp.kron(sp.eye(2*n, dtype=cp.float64), Ws) @ perm) + z_cov
+        Ws = (perm.T @ sp.kron(Ws, sp.eye(2*n, dtype=cp.float64)) @ perm) + z_cov
 
         #inverse of W
         w1 = Ws[:, :n*samples][:n*samples, :].diagonal()
-- 
2.43.0


From a08be5d7d343dd1511be5fcc548fea7591b28f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:15 +0000
Subject: [PATCH 39/53] fix: the report failed for networks without zero
 entries

---
 src/models/error_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/error_metrics.py b/src/models/error_metrics.py
index 05546b2..7c187d6 100644
--- a/src/models/error_metrics.py
+++ b/src/models/error_metrics.py
@@ -28,7 +28,7 @@ def max_error(y: np.array, y_hat: np.array) -> float:
     :param y_hat: estimated parameters as numpy array
     :return: infinity norm of the estimation error
     """
-    return np.max(np.abs(y - y_hat))
+    return np.max(np.abs(y - y_hat)) if y.size > 0 else 0.0
 
 
 def rrms_error(y: np.array, y_hat: np.array) -> float:
-- 
2.43.0


From 6888ce4b4bf7cb9d7b17e9058a73126679a9d0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:59 +0000
Subject: [PATCH 40/53] fix: ratings read back with the filtered data ignored
 the configured safety factor

---
 src/simulation/run.py    | 2 +-
 src/simulation/run3ph.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulation/run.py b/src/simulation/run.py
index ae2d8b2..42c5428 100644
--- a/src/simulation/run.py
+++ b/src/simulation/run.py
@@ -170,7 +170,7 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
         voltage_magnitude_sd, current_magnitude_sd, voltage_phase_sd, current_phase_sd,\
             use_equivalent_noise, pmu_safety_factor = noise_params
     else:
-        pmu_safety_factor = 4
+        pmu_safety_factor = simulation.safety_factor
 
     pmu_ratings = pmu_safety_factor * np.array([np.sum(i*i) for i in net.load[["p_mw","q_mvar"]].values])
     # External grid connections provide power for all loads
diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index 3d97d2d..d5eb348 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -229,7 +229,7 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
             use_equivalent_noise, pmu_safety_factor = noise_params
         pmu_safety_factor = pmu_safety_factor.reshape((len(pmu_safety_factor), 1))
     else:
-        pmu_safety_factor = np.array([[4], [4], [4]])
+        pmu_safety_factor = simulation.safety_factor * np.ones((3, 1))
 
     total_loads = np.zeros((3, len(net.bus.index)))
     for i in range(len(net.bus.index)):
-- 
2.43.0


From b1531264405d1f2a46ff3e9d06a25bf217d84871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:25 +0000
Subject: [PATCH 41/53] fix: sweeps ran with another seed or noise level than
 announced, and left the configuration changed when interrupted

---
 run_multiple_sims.sh | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/run_multiple_sims.sh b/run_multiple_sims.sh
index 3ca0a17..d8635e1 100644
--- a/run_multiple_sims.sh
+++ b/run_multiple_sims.sh
@@ -17,11 +17,22 @@ while getopts 'ns' flag; do
   esac
 done
 
+# The scenarios modify the configuration files, put them back at the end or if interrupted
+backup=$(mktemp -d) || exit 1
+cp conf/conf.py conf/simulation.py "$backup" || exit 1
+
+restore() {
+  cat "$backup/conf.py" > conf/conf.py
+  cat "$backup/simulation.py" > conf/simulation.py
+}
+
+trap 'restore; rm -r "$backup"' EXIT
+
 if [ "$n_flag" == "true" ]; then
   for seed in 11 #13 111 131
   do
 
-    sed -i "s/seed = 131/seed = $seed/g" conf/conf.py
+    sed -i "s/^seed = .*/seed = $seed/" conf/conf.py
     echo "seed $seed"
 
     python3 simulate_network.py -vqte --network ieee123center
@@ -30,16 +41,14 @@ if [ "$n_flag" == "true" ]; then
     do
       echo "Test with noise level $i"
 
-      sed -i "s/noise_level = 1/noise_level = $i/g" conf/conf.py
+      sed -i "s/^noise_level = .*/noise_level = $i/" conf/conf.py
 
       python3 simulate_network.py -qtde --network ieee123center
       python3 identify_network.py -q --max-iterations 20 --network ieee123center --phases 012
       python3 plot_results.py -v --network ieee123center
-
-      sed -i "s/noise_level = $i/noise_level = 1/g" conf/conf.py
     done
 
-    sed -i "s/seed = $seed/seed = 131/g" conf/conf.py
+    restore
   done
 fi
 
@@ -47,23 +56,21 @@ if [ "$s_flag" == "true" ]; then
   for seed in  11 13 111 131
   do
 
-    sed -i "s/seed = 131/seed = $seed/g" conf/conf.py
+    sed -i "s/^seed = .*/seed = $seed/" conf/conf.py
     echo "seed $seed"
 
     for i in 1 2 3 5 7 10 15 21 30 45 60
     do
       echo "Test with $i day sample size"
 
-      sed -i "s/days = 7/days = $i/g" conf/simulation.py
+      sed -i "s/^days = [0-9.]*/days = $i/" conf/simulation.py
 
       python3 simulate_network.py -qte --network ieee123center
       python3 identify_network.py -q --max-iterations 20 --network ieee123center --phases 012
       python3 plot_results.py -v --network ieee123center
-
-      sed -i "s/days = $i/days = 7/g" conf/simulation.py
     done
 
-    sed -i "s/seed = $seed/seed = 131/g" conf/conf.py
+    restore
   done
 fi
 
-- 
2.43.0


From fb2a5c96fa47c0ea76ba45a325825b1c31f8b980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:57 +0000
Subject: [PATCH 42/53] fix: Gaussian loads of symmetric loads in three-phase
 networks were zero

---
 src/simulation/run3ph.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index d5eb348..fe2511b 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -121,8 +121,11 @@ def generate_loads(net, load_params=None, verbose=True):
 
             # Ordered as active loads of phases a, b and c, then reactive ones
             load_asym = (load_asym[0], load_asym[2], load_asym[4], load_asym[1], load_asym[3], load_asym[5])
-            load_p = np.zeros((len(times), len(net.load.p_mw)))
-            load_q = np.zeros((len(times), len(net.load.q_mvar)))
+            load_p, load_q = generate_gaussian_load(load_std, len(times),
+                                                    load_p_reference=np.array([net.load.p_mw[net.load.p_mw.index[i]]
+                                                                               for i in range(len(net.load.p_mw))]),
+                                                    load_q_reference=np.array([net.load.q_mvar[net.load.q_mvar.index[i]]
+                                                                               for i in range(len(net.load.q_mvar))]))
             pprint("Done!")
 
         a = simulation.load_constantness
-- 
2.43.0


From 417cf656667efe04cc2484b15e15a6488f04e583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:57 +0000
Subject: [PATCH 43/53] fix: the rating of a further external grid included the
 ratings of the previous ones

---
 src/simulation/run.py    | 3 ++-
 src/simulation/run3ph.py | 5 ++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simulation/run.py b/src/simulation/run.py
index 42c5428..7244047 100644
--- a/src/simulation/run.py
+++ b/src/simulation/run.py
@@ -174,9 +174,10 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
 
     pmu_ratings = pmu_safety_factor * np.array([np.sum(i*i) for i in net.load[["p_mw","q_mvar"]].values])
     # External grid connections provide power for all loads
+    total_rating = np.sum(pmu_ratings)
     for i in range(len(net.load.bus)):
         if net.load.bus.iloc[i] in net.ext_grid.bus.values:
-            pmu_ratings[i] = np.sum(pmu_ratings)
+            pmu_ratings[i] = total_rating
 
     ts = np.linspace(0, np.max(times), round(np.max(times) * fmeas))
     fparam = int(np.floor(ts.size / steps))
diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index fe2511b..8adc196 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -252,11 +252,10 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
     pmu_ratings = np.tile(pmu_safety_factor, (1, len(net.bus.index))) * total_loads
 
     # External grid connections provide power for all loads
+    total_ratings = np.sum(pmu_ratings, axis=1)
     for i in range(len(net.bus.index)):
         if net.bus.index[i] in net.ext_grid.bus.values:
-            pmu_ratings[0, i] = np.sum(pmu_ratings[0, :])
-            pmu_ratings[1, i] = np.sum(pmu_ratings[1, :])
-            pmu_ratings[2, i] = np.sum(pmu_ratings[2, :])
+            pmu_ratings[:, i] = total_ratings
 
     pmu_ratings = pmu_ratings.T.reshape((3 * len(net.bus.index),))
 
-- 
2.43.0


From e6bd1dd769e0f2a01f09af908d6cfa7ebb5c317f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:22 +0000
Subject: [PATCH 44/53] fix: three-phase reduction failed, or dropped couplings
 between phases, with partially loaded or unbalanced hidden nodes

---
 src/simulation/run3ph.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index 8adc196..aee22d7 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -6,7 +6,6 @@ from src.simulation.load_profile import load_profile_from_numpy, generate_gaussi
 from src.simulation.noise import filter_and_resample_measurement, add_polar_noise_to_measurement
 from src.simulation import net_templates_3ph
 from src.simulation.net_templates_3ph import ieee123_types
-from src.simulation.lines import admittance_sequence_to_phase, admittance_phase_to_sequence
 
 
 def make_net(name, y_bus=None):
@@ -383,11 +382,7 @@ def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, reduce_
 
     # Shift larger indices because y_bus gets smaller
     idx_tored = np.array([idx - sum(i < idx for i in pcc_idx) for idx in idx_tored], dtype=np.int64)
-    y_bus = admittance_phase_to_sequence(y_bus)
-    y_bus = np.kron(net.kron_reduction(idx_tored[idx_tored % 3 == 0]/3, y_bus[::3,::3]), np.diag([1, 0, 0])) \
-            + np.kron(net.kron_reduction((idx_tored[idx_tored % 3 == 1] - 1)/3, y_bus[1::3,1::3]), np.diag([0, 1, 0])) \
-            + np.kron(net.kron_reduction((idx_tored[idx_tored % 3 == 2] - 2)/3, y_bus[2::3,2::3]), np.diag([0, 0, 1]))
-    y_bus = admittance_sequence_to_phase(y_bus)
+    y_bus = net.kron_reduction(idx_tored, y_bus)
 
     pprint("Done!")
     pprint("reduced elements: " + str(np.array(idx_todel) + 1))
-- 
2.43.0


From 4d597866eab9caddebaaaac6ad498d2ecdb95570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:22 +0000
Subject: [PATCH 45/53] fix: filtering failed without given time instants

---
 src/simulation/noise.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulation/noise.py b/src/simulation/noise.py
index 0e0d354..356f8b7 100644
--- a/src/simulation/noise.py
+++ b/src/simulation/noise.py
@@ -121,8 +121,9 @@ def filter_and_resample_measurement(actual_measurement, oldtimes=None, newtimes=
     """
 
     pbar = tqdm if verbose else (lambda x: x)
+    oldtimes = np.arange(actual_measurement.shape[0]) if oldtimes is None else oldtimes
+    newtimes = oldtimes if newtimes is None else newtimes
     steps, n_series = int(len(newtimes)/fparam), actual_measurement.shape[1]
-    oldtimes, newtimes = np.arange(steps) if oldtimes is None else oldtimes, oldtimes if newtimes is None else newtimes
 
     # linear interpolation of missing timesteps, looped to reduce memory usage
     filtered = 1j*np.zeros((steps, n_series))
-- 
2.43.0


From 34413fb157eb609df2a79b5bf56038fbe824c3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:22 +0000
Subject: [PATCH 46/53] fix: the supply disappeared from either the matrix or
 the measurements only, depending on the hidden nodes

---
 src/simulation/run.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/simulation/run.py b/src/simulation/run.py
index 7244047..8cd9f6a 100644
--- a/src/simulation/run.py
+++ b/src/simulation/run.py
@@ -273,7 +273,9 @@ def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, verbose
     passive_idx = [net.bus.index.tolist().index(idx) for idx in net.give_passive_nodes()[0]]
     hidden_idx = [net.bus.index.tolist().index(idx) for idx in hidden_nodes]
     pcc_idx = [net.bus.index.tolist().index(idx) for idx in net.ext_grid.bus.values]
-    idx_todel = list(set(hidden_idx).union(passive_idx))
+    # The ext_grid is kept only in a Laplacian matrix, unless it is hidden
+    pcc_todel = pcc_idx if not laplacian else [idx for idx in pcc_idx if idx in hidden_idx]
+    idx_todel = list(set(hidden_idx).union(passive_idx).union(pcc_todel))
     hidden_idx = [idx for idx in hidden_idx if idx not in pcc_idx]
 
     # Average loads of the hidden nodes, using the indices of the measurements
@@ -283,11 +285,10 @@ def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, verbose
     idx_tored = list(set(hidden_idx).union(passive_idx).difference(pcc_idx))
 
     # subKron reducing the ext_grid
-    if not laplacian:
-        y_bus = np.delete(np.delete(y_bus, pcc_idx, axis=1), pcc_idx, axis=0)
+    y_bus = np.delete(np.delete(y_bus, pcc_todel, axis=1), pcc_todel, axis=0)
 
-        # Shift larger indices because y_bus gets smaller
-        idx_tored = [idx - sum(i < idx for i in pcc_idx) for idx in idx_tored]
+    # Shift larger indices because y_bus gets smaller
+    idx_tored = [idx - sum(i < idx for i in pcc_todel) for idx in idx_tored]
 
     # Kron reduction of passive and hidden nodes
     y_bus = net.kron_reduction(idx_tored, y_bus)
-- 
2.43.0


From bd3d0358d3b8b9b3d914df50cfac2920a591f50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:22 +0000
Subject: [PATCH 47/53] fix: real and complex forms of matrices in the other
 sparse formats

---
 src/models/matrix_operations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/models/matrix_operations.py b/src/models/matrix_operations.py
index 63c9bb0..e0d4760 100644
--- a/src/models/matrix_operations.py
+++ b/src/models/matrix_operations.py
@@ -79,6 +79,8 @@ def make_real_matrix(m):
             imag = m.imag
 
         return sp.bmat([[real, -imag], [imag, real]], format=m.format)
+    elif sp.issparse(m):  # Formats without real and imaginary parts
+        return make_real_matrix(m.tocsr()).asformat(m.format)
     else:
         return np.block([
             [np.real(m), -np.imag(m)],
@@ -93,6 +95,8 @@ def make_complex_matrix(m):
     :param m: block 2x2 real matrix as numpy/scipy array
     :return: complex matrix as numpy/scipy array
     """
+    if sp.issparse(m) and m.format in ("coo", "dia", "bsr"):  # Formats that cannot be sliced
+        return make_complex_matrix(m.tocsr()).asformat(m.format)
     return m[:m.shape[0]//2, :m.shape[1]//2] + 1j * m[m.shape[0]//2:, :m.shape[1]//2]
 
 
-- 
2.43.0


From ee9e8ef17ad5b72ca5c333d748b4391cdb9d74d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:22 +0000
Subject: [PATCH 48/53] fix: loads lost minutes, and times did not match them,
 when the days are not divided evenly between the weeks

---
 src/simulation/run.py    | 4 +++-
 src/simulation/run3ph.py | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/simulation/run.py b/src/simulation/run.py
index 8cd9f6a..eb30716 100644
--- a/src/simulation/run.py
+++ b/src/simulation/run.py
@@ -61,7 +61,7 @@ def generate_loads(net, load_params=None, verbose=True):
             load_p, load_q = load_profile_from_numpy(active_file=active_file,
                                                      reactive_file=reactive_file,
                                                      skip_header=selected_weeks * 7 * 24 * 60,
-                                                     length=np.array(days / len(selected_weeks) * 24 * 60,
+                                                     length=np.array(days * 24 * 60 // len(selected_weeks),
                                                                      dtype=np.int64),
                                                      load_p_reference=np.array([net.load.p_mw[net.load.p_mw.index[i]]
                                                                                 for i in range(len(net.load.p_mw))]),
@@ -69,6 +69,8 @@ def generate_loads(net, load_params=None, verbose=True):
                                                                                 for i in range(len(net.load.q_mvar))]),
                                                      load_p_rb=None, load_q_rb=None, load_p_rc=None, load_q_rc=None,
                                                      verbose=verbose)
+            # The days may not be divided evenly between the weeks
+            times = times[:load_p.shape[0]]
             pprint("Done!")
         else:
             _, _, load_std, days, constant_load_nodes = load_params
diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index aee22d7..9b0ed6b 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -59,7 +59,7 @@ def generate_loads(net, load_params=None, verbose=True):
             load_p, load_q = load_profile_from_numpy(active_file=active_file,
                                                      reactive_file=reactive_file,
                                                      skip_header=selected_weeks * 7 * 24 * 60,
-                                                     length=np.array(days / len(selected_weeks) * 24 * 60,
+                                                     length=np.array(days * 24 * 60 // len(selected_weeks),
                                                                      dtype=np.int64),
                                                      load_p_reference=np.array([net.load.p_mw[net.load.p_mw.index[i]]
                                                                                 for i in range(len(net.load.p_mw))]),
@@ -72,7 +72,7 @@ def generate_loads(net, load_params=None, verbose=True):
             load_asym = load_profile_from_numpy(active_file=active_file,
                                                 reactive_file=reactive_file,
                                                 skip_header=selected_weeks * 7 * 24 * 60,
-                                                length=np.array(days / len(selected_weeks) * 24 * 60, dtype=np.int64),
+                                                length=np.array(days * 24 * 60 // len(selected_weeks), dtype=np.int64),
                                                 load_p_reference=np.array(
                                                     [net.asymmetric_load.p_a_mw[net.asymmetric_load.p_a_mw.index[i]]
                                                      for i in range(len(net.asymmetric_load.p_a_mw))]),
@@ -93,6 +93,8 @@ def generate_loads(net, load_params=None, verbose=True):
                                                      for i in range(len(net.asymmetric_load.q_c_mvar))]),
                                                 verbose=verbose
                                                 )
+            # The days may not be divided evenly between the weeks
+            times = times[:load_p.shape[0]]
             pprint("Done!")
 
         else:
-- 
2.43.0


From 905832652fe6369a44bccc7cbdd417a6a2cf00f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:25 +0000
Subject: [PATCH 49/53] fix: creating lines swapped the ends of the caller's
 line data

---
 src/simulation/network.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/simulation/network.py b/src/simulation/network.py
index ee46691..8f6ed08 100644
--- a/src/simulation/network.py
+++ b/src/simulation/network.py
@@ -71,14 +71,15 @@ class NetData(Net):
         :return: self network for chained calls
         """
         for l in ls:
-            if l.start_bus > l.end_bus:
-                l.start_bus, l.end_bus = l.end_bus, l.start_bus
+            start_bus, end_bus = l.start_bus, l.end_bus
+            if start_bus > end_bus:
+                start_bus, end_bus = end_bus, start_bus
 
             if l.status > 0:
-                pp.create_line_from_parameters(self, pp.get_element_index(self, "bus", str(l.start_bus)),
-                                               pp.get_element_index(self, "bus", str(l.end_bus)),
+                pp.create_line_from_parameters(self, pp.get_element_index(self, "bus", str(start_bus)),
+                                               pp.get_element_index(self, "bus", str(end_bus)),
                                                l.length, l.R / l.length, l.X / l.length, 0, 1e10,
-                                               "(" + str(l.start_bus) + "," + str(l.end_bus) + ")")
+                                               "(" + str(start_bus) + "," + str(end_bus) + ")")
         return self
 
     def create_lines_from_ybus(self, y_bus: np.array):
-- 
2.43.0


From ea10eaab833bfbaf627ae92a974025d77d97ec81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:57 +0000
Subject: [PATCH 50/53] fix: reduced matrices could have their nodes in another
 order than the measurements

---
 src/simulation/abstract_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/abstract_network.py b/src/simulation/abstract_network.py
index 4ee5e4a..48a81bb 100644
--- a/src/simulation/abstract_network.py
+++ b/src/simulation/abstract_network.py
@@ -99,7 +99,7 @@ class Net(pp.pandapowerNet, ABC):
         if y_bus is None:
             y_bus = self.make_y_bus()
 
-        not_idx_tored = np.array(list(set(range(y_bus.shape[0])) - set(idx_tored)), dtype=np.int64)
+        not_idx_tored = np.array(sorted(set(range(y_bus.shape[0])) - set(idx_tored)), dtype=np.int64)
         idx_tored = np.array(idx_tored, dtype=np.int64)
         y_red = y_bus[not_idx_tored, :][:, not_idx_tored] - y_bus[not_idx_tored, :][:, idx_tored] @ \
                 np.linalg.pinv(y_bus[idx_tored, :][:, idx_tored]) @ y_bus[idx_tored, :][:, not_idx_tored]
-- 
2.43.0


From fd47705d461478fc6955696d4501b82ffda40243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:33 +0000
Subject: [PATCH 51/53] fix: csv load profiles were announced but could not be
 used

---
 src/simulation/load_profile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/simulation/load_profile.py b/src/simulation/load_profile.py
index 6aebe4c..e28a43f 100644
--- a/src/simulation/load_profile.py
+++ b/src/simulation/load_profile.py
@@ -201,8 +201,9 @@ def load_profile_from_numpy(
     :return: tuple of n_samples-by-n matrices of random loads for n nominal ones, as numpy arrays.
     """
     n_load = len(load_p_reference)
-    pl = np.load(active_file, mmap_mode='r')
-    ql = np.load(reactive_file, mmap_mode='r')
+    # Profiles can also be given as csv files
+    pl, ql = tuple(pd.read_csv(f, sep=';', header=None, engine='python').to_numpy() if str(f).endswith('.csv')
+                   else np.load(f, mmap_mode='r') for f in (active_file, reactive_file))
     skip_footer = pl.shape[0] - (length + skip_header)
     pload_profile = np.zeros((0, pl.shape[1]))
     qload_profile = np.zeros((0, ql.shape[1]))
-- 
2.43.0


From 8c88f47a4d398d06fdec2a64cc340b7c2999458f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:51 +0000
Subject: [PATCH 52/53] fix: sweeps ignored settings written without spaces and
 repeated one scenario

---
 run_multiple_sims.sh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/run_multiple_sims.sh b/run_multiple_sims.sh
index d8635e1..4715b63 100644
--- a/run_multiple_sims.sh
+++ b/run_multiple_sims.sh
@@ -32,7 +32,7 @@ if [ "$n_flag" == "true" ]; then
   for seed in 11 #13 111 131
   do
 
-    sed -i "s/^seed = .*/seed = $seed/" conf/conf.py
+    sed -i "s/^seed *=.*/seed = $seed/" conf/conf.py
     echo "seed $seed"
 
     python3 simulate_network.py -vqte --network ieee123center
@@ -41,7 +41,7 @@ if [ "$n_flag" == "true" ]; then
     do
       echo "Test with noise level $i"
 
-      sed -i "s/^noise_level = .*/noise_level = $i/" conf/conf.py
+      sed -i "s/^noise_level *=.*/noise_level = $i/" conf/conf.py
 
       python3 simulate_network.py -qtde --network ieee123center
       python3 identify_network.py -q --max-iterations 20 --network ieee123center --phases 012
@@ -56,14 +56,14 @@ if [ "$s_flag" == "true" ]; then
   for seed in  11 13 111 131
   do
 
-    sed -i "s/^seed = .*/seed = $seed/" conf/conf.py
+    sed -i "s/^seed *=.*/seed = $seed/" conf/conf.py
     echo "seed $seed"
 
     for i in 1 2 3 5 7 10 15 21 30 45 60
     do
       echo "Test with $i day sample size"
 
-      sed -i "s/^days = [0-9.]*/days = $i/" conf/simulation.py
+      sed -i "s/^days *= *[0-9.]*/days = $i/" conf/simulation.py
 
       python3 simulate_network.py -qte --network ieee123center
       python3 identify_network.py -q --max-iterations 20 --network ieee123center --phases 012
-- 
2.43.0


From dc7babed3a135b047cd34fa71b13eb1b7d26f2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:25 +0000
Subject: [PATCH 53/53] fix: Gaussian loads of negative nominal powers have a
 positive deviation

---
 src/simulation/load_profile.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/simulation/load_profile.py b/src/simulation/load_profile.py
index e28a43f..b061baa 100644
--- a/src/simulation/load_profile.py
+++ b/src/simulation/load_profile.py
@@ -66,16 +66,16 @@ def generate_gaussian_load(
     """
     n_load = len(load_p_reference)
     if load_p_rb is None or load_q_rb is None or load_p_rc is None or load_q_rc is None:
-        load_p = np.random.normal(load_p_reference, load_p_reference * load_sd, (n_samples, n_load))
-        load_q = np.random.normal(load_q_reference, load_q_reference * load_sd, (n_samples, n_load))
+        load_p = np.random.normal(load_p_reference, np.abs(load_p_reference) * load_sd, (n_samples, n_load))
+        load_q = np.random.normal(load_q_reference, np.abs(load_q_reference) * load_sd, (n_samples, n_load))
         return load_p, load_q
     else:
-        load_pa = np.random.normal(load_p_reference, load_p_reference * load_sd, (n_samples, n_load))
-        load_qa = np.random.normal(load_q_reference, load_q_reference * load_sd, (n_samples, n_load))
-        load_pb = np.random.normal(load_p_rb, load_p_rb * load_sd, (n_samples, n_load))
-        load_qb = np.random.normal(load_q_rb, load_q_rb * load_sd, (n_samples, n_load))
-        load_pc = np.random.normal(load_p_rc, load_p_rc * load_sd, (n_samples, n_load))
-        load_qc = np.random.normal(load_q_rc, load_q_rc * load_sd, (n_samples, n_load))
+        load_pa = np.random.normal(load_p_reference, np.abs(load_p_reference) * load_sd, (n_samples, n_load))
+        load_qa = np.random.normal(load_q_reference, np.abs(load_q_reference) * load_sd, (n_samples, n_load))
+        load_pb = np.random.normal(load_p_rb, np.abs(load_p_rb) * load_sd, (n_samples, n_load))
+        load_qb = np.random.normal(load_q_rb, np.abs(load_q_rb) * load_sd, (n_samples, n_load))
+        load_pc = np.random.normal(load_p_rc, np.abs(load_p_rc) * load_sd, (n_samples, n_load))
+        load_qc = np.random.normal(load_q_rc, np.abs(load_q_rc) * load_sd, (n_samples, n_load))
         return load_pa, load_qa, load_pb, load_qb, load_pc, load_qc
 
 
-- 
2.43.0

