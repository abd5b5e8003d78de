From 4c8d36d1432ea04c7d7e8fb3054e9c1bdb63c18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 01/90] fix: double only the interior bins of a one-sided
 spectrum (not two-sided ones; odd n_dft has no Nyquist bin)

---
 pyspod/spod/standard.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index c11a980..e1b631f 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -353,8 +353,10 @@ class Standard(Base):
             self._pr0(f'- Modes computation {cum_cctime} s. Saving: {cum_sstime} s.')
 
         ## correct Fourier for one-sided spectrum
-        if self._isrealx:
-            L[1:-1,:] = 2 * L[1:-1,:]
+        ## (the Nyquist frequency is present only if n_dft is even)
+        if self._isrealx and not self._fullspectrum:
+            ub = -1 if self._n_dft % 2 == 0 else None
+            L[1:ub,:] = 2 * L[1:ub,:]
 
         # get eigenvalues and confidence intervals
         self._eigs = np.abs(L)
-- 
2.43.0


From c0578317b2a5bb343b86850e6addeb5236643c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 02/90] fix: negative frequencies of complex data start at
 (n_dft+1)/2 for odd n_dft

---
 pyspod/spod/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 6ccf2fa..7def859 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -627,7 +627,7 @@ class Base():
                 if (self._n_dft % 2 == 0):
                     self._freq[self._n_dft//2+1:] = self._freq[self._n_dft//2+1:] - 1 / self._dt
                 else:
-                    self._freq[(self._n_dft+1)//2+1:] = self._freq[(self._n_dft+1)//2+1:] - 1 / self._dt
+                    self._freq[(self._n_dft+1)//2:] = self._freq[(self._n_dft+1)//2:] - 1 / self._dt
         self._n_freq = len(self._freq)
 
 
-- 
2.43.0


From 6f60cc71fbc9be3350e3bb1c986c69f9afe4a1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 03/90] fix: keep the imaginary part of complex-valued data

---
 pyspod/spod/base.py      | 6 ++++--
 pyspod/spod/standard.py  | 2 +-
 pyspod/utils/parallel.py | 4 ++--
 pyspod/utils/reader.py   | 7 ++++++-
 4 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 7def859..6e2bf71 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -593,7 +593,8 @@ class Base():
             last_val = data[last_key]["v"]
 
             shape_sxv = last_val[0,...].size
-            t_sum = np.zeros(last_val[0,...].shape)
+            t_sum = np.zeros(last_val[0,...].shape,
+                dtype=np.result_type(last_val.dtype, float))
 
             for k,v in data.items():
                 val = v["v"]
@@ -602,7 +603,8 @@ class Base():
             split_block = self.nt // self._n_blocks
             split_res = self.nt % self._n_blocks
             shape_sxv = data[0,...].size
-            t_sum = np.zeros(data[0,...].shape)
+            t_sum = np.zeros(data[0,...].shape,
+                dtype=np.result_type(data.dtype, float))
             for i_blk in range(0, self._n_blocks):
                 lb = i_blk * split_block
                 ub = lb + split_block
diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index e1b631f..773ae44 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -173,7 +173,7 @@ class Standard(Base):
         # normalize by pointwise variance
         if self._normalize_data:
             den = self._n_dft - 1
-            Q_var = np.sum((Q_blk - np.mean(Q_blk, axis=0))**2, axis=0) / den
+            Q_var = np.sum(np.abs(Q_blk - np.mean(Q_blk, axis=0))**2, axis=0) / den
             # address division-by-0 problem with NaNs
             Q_var[Q_var < 4 * np.finfo(float).eps] = 1
             Q_blk /= Q_var
diff --git a/pyspod/utils/parallel.py b/pyspod/utils/parallel.py
index 229686c..d24ada5 100644
--- a/pyspod/utils/parallel.py
+++ b/pyspod/utils/parallel.py
@@ -30,7 +30,7 @@ def pvar(data, comm):
     """
     n = np.size(data)
     m = np.mean(data)
-    d = data - m
+    d = np.abs(data - m)
     d *= d
     v = np.sum(d)/n
 
@@ -39,7 +39,7 @@ def pvar(data, comm):
         nb, mb, vb = b
         n = na + nb
         m = (na*ma + nb*mb)/n
-        v = (na*va + nb*vb + na*nb*(ma-mb)**2/n)/n
+        v = (na*va + nb*vb + na*nb*abs(ma-mb)**2/n)/n
         return ((n, m, v))
 
     (n, m, v) = comm.allreduce((n, m, v), op=op_stat)
diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index 0138429..8b71546 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -57,7 +57,12 @@ class reader_1stage():
         self._shape = x_tmp.shape
         self._xdim = x_tmp[0,...,0].ndim
         self._xshape = x_tmp[0,...,0].shape
-        self._is_real = np.isreal(x_tmp).all()
+        # complex-valued data must be kept (and detected) as such, even if
+        # the first snapshot happens to be real
+        self._is_real = all(
+            d.dtype.kind != 'c' or bool(np.isreal(d).all()) for d in data_list)
+        if not self._is_real:
+            self._dtype = np.result_type(self._dtype, np.complex64)
         self._max_axis = np.argmax(self._shape[1:])
         del x_tmp
         del data
-- 
2.43.0


From e96976c3c601c3757bfcbc5d6556e1ea5f5b0cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 04/90] fix: hermitian eigensolver for the SPOD matrix, modes
 stay orthonormal with repeated eigenvalues

---
 pyspod/spod/standard.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index 773ae44..4e1ee3e 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -204,8 +204,9 @@ class Standard(Base):
         st = time.time()
 
         ## compute eigenvalues and eigenvectors
-        L, V = la.eig(M)
-        L = np.real_if_close(L, tol=1000000)
+        ## (M is hermitian: this gives real eigenvalues and orthonormal
+        ## eigenvectors, also if eigenvalues are repeated)
+        L, V = la.eigh(M)
         del M
 
 
-- 
2.43.0


From 525243fb451d80111c5e41a8a2a550940e475dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 05/90] fix: no NaN modes for null (or, by round-off, negative)
 eigenvalues

---
 pyspod/spod/standard.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index 4e1ee3e..2277860 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -222,8 +222,12 @@ class Standard(Base):
         st = time.time()
 
         # compute spatial modes for given frequency
-        L_diag = np.sqrt(self._n_blocks) * np.sqrt(L)
-        L_diag_inv = 1. / L_diag
+        ## (null eigenvalues, possibly negative by round-off, have no mode)
+        L_tol = np.finfo(L.dtype).eps * self._n_blocks * \
+            np.max(np.abs(L), axis=1, keepdims=True)
+        L_diag = np.sqrt(self._n_blocks) * np.sqrt(np.maximum(L, 0))
+        L_diag_inv = np.zeros_like(L_diag)
+        np.divide(1., L_diag, out=L_diag_inv, where=L>L_tol)
 
         if not self._savefreq_disk2:
             for f in range(0,self._n_freq):
-- 
2.43.0


From cb0f43cc5a9396b4bc509c3b7b5c6eb21ec9969c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 06/90] fix: SPOD of data (or of a rank's share) with one
 single point

---
 pyspod/spod/standard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index 2277860..21a2112 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -195,7 +195,7 @@ class Standard(Base):
         st = time.time()
         M = [None]*self._n_freq
         for f in range(0,self._n_freq):
-            Q_hat_f = np.squeeze(Q_hats[f])
+            Q_hat_f = Q_hats[f]
             M[f] = Q_hat_f.conj().T @ (Q_hat_f * self._weights) / self._n_blocks
         del Q_hat_f
         M = np.stack(M)
-- 
2.43.0


From 2aea3a7e06ea4dffb4e73b121980e8816ec86f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 07/90] fix: orthogonality check must not ignore the imaginary
 part of the product

---
 pyspod/spod/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index 073f7a1..8b16e43 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -69,9 +69,9 @@ def check_orthogonality(results_dir, mode_idx1, mode_idx2,
     O = utils_par.allreduce(data=O, comm=comm)
     tol = 2e-6
     if mode_idx1 == mode_idx2:
-        ortho_check = ((O < 1+tol) and (O>1-tol))
+        ortho_check = np.abs(O - 1) < tol
     else:
-        ortho_check = ((O < 0+tol) and (O>0-tol))
+        ortho_check = np.abs(O) < tol
     utils_par.barrier(comm)
     return ortho_check, O
 
-- 
2.43.0


From 01331fae5d0425fff043eba7db626e7326b4b79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 08/90] fix: orthogonality check with integer mode ids, as
 documented

---
 pyspod/spod/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index 8b16e43..62635c7 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -58,8 +58,8 @@ def check_orthogonality(results_dir, mode_idx1, mode_idx2,
     ## get modes
     phir = _get_modes(results_dir, n_freq,
         freq_idx, max_axis, xsize, n_modes_save, dt_complex, comm)
-    phir1 = phir[:,mode_idx1]
-    phir2 = phir[:,mode_idx2]
+    phir1 = phir[:,np.atleast_1d(mode_idx1)]
+    phir2 = phir[:,np.atleast_1d(mode_idx2)]
     del phir
     utils_par.pr0(f'- retrieved modes: {time.time() - st} s.', comm)
     st = time.time()
-- 
2.43.0


From 27a215f144b31562c5ac4a7fc2eee48b316514e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 09/90] fix: saved lower and upper confidence bounds were
 swapped

---
 pyspod/spod/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 6e2bf71..6f0c849 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -692,8 +692,8 @@ class Base():
             with open(path_params, 'w') as f: yaml.dump(self._params, f)
             ## save eigs and freq
             if hasattr(self, '_eigs_c'):
-                self._eigs_c_u = self._eigs_c[:,:,0]
-                self._eigs_c_l = self._eigs_c[:,:,1]
+                self._eigs_c_l = self._eigs_c[:,:,0]
+                self._eigs_c_u = self._eigs_c[:,:,1]
                 np.savez(path_eigs, eigs=self._eigs,
                     eigs_c_u=self._eigs_c_u, eigs_c_l=self._eigs_c_l,
                     freq=self._freq)
-- 
2.43.0


From b8a39923c968ba64295f75faeeb8fda8c6f0b2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 10/90] fix: results of one fit must not leak into the caller's
 params dictionary

---
 pyspod/pod/base.py  | 2 +-
 pyspod/spod/base.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index 4438624..2be71ce 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -46,7 +46,7 @@ class Base():
         params['savedir'] = self._savedir
 
         ## parse other inputs
-        self._params = params
+        self._params = dict(params)
         self._weights_tmp = weights
         self._comm = comm
         if self._dtype == 'double':
diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 6f0c849..306a0f5 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -83,7 +83,7 @@ class Base():
         params['savedir'] = self._savedir
 
         ## parse other inputs
-        self._params = params
+        self._params = dict(params)
         self._weights_tmp = weights
         self._comm = comm
         if self._dtype == 'double':
-- 
2.43.0


From d1e502825f2abf38a68bfdba043dfa0421dfb495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 11/90] fix: index into a dataset of a list is relative to its
 first time, also for a single time

---
 pyspod/utils/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index 8b71546..8b2767c 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -102,7 +102,7 @@ class reader_1stage():
                     data_idx[-1] = 0
 
                 d_idx = [np.s_[:]]*len(d.shape)
-                d_idx[0] = np.s_[read_js-cum_read:read_je-cum_read]
+                d_idx[0] = np.s_[read_js-file_ts_start:read_je-file_ts_start]
                 data[tuple(data_idx)] = d[tuple(d_idx)]
 
                 cum_read += read_je-read_js
-- 
2.43.0


From 525545397c4f48e4f233b17fbdf88b16d0914adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 12/90] fix: normalization must not alter the weights passed by
 the user

---
 pyspod/utils/weights.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyspod/utils/weights.py b/pyspod/utils/weights.py
index 7b4be7c..2632a45 100644
--- a/pyspod/utils/weights.py
+++ b/pyspod/utils/weights.py
@@ -112,6 +112,9 @@ def apply_normalization(
     :rtype: numpy.ndarray
     '''
 
+    ## weights provided by the user must not be altered
+    weights = np.array(weights, dtype=float)
+
     ## variable-wise normalization by variance via weight matrix
     if comm is not None:
         if method.lower() == 'variance':
-- 
2.43.0


From e581aae9ea64001cd5dc27f7697635bfb53de105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 13/90] fix: POD of multi-variable data (and of single-variable
 data with explicit variable axis)

---
 pyspod/pod/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index 2be71ce..3c248a4 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -232,7 +232,7 @@ class Base():
         self._xshape = x_tmp[0,...,0].shape
         self._nt = 0
         for d in data_list:
-            assert d[0,...].shape == self._xshape
+            assert d.shape[1:] == data_list[0].shape[1:]
             self._nt += d.shape[0]
 
         # # Determine whether data is real-valued or complex-valued-valued
-- 
2.43.0


From 634ce92b384aefc08784bcac79d375d87527b172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 14/90] fix: POD with the default number of modes, or more
 modes than snapshots

---
 pyspod/pod/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index 3c248a4..50ea05e 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -235,6 +235,9 @@ class Base():
             assert d.shape[1:] == data_list[0].shape[1:]
             self._nt += d.shape[0]
 
+        # there are as many modes as snapshots
+        self._n_modes_save = int(min(self._n_modes_save, self._nt))
+
         # # Determine whether data is real-valued or complex-valued-valued
         # # to decide on one- or two-sided spectrum from data
         self._isrealx = np.isreal(data[0]).all()
-- 
2.43.0


From ea701ea96863cd8ae67ef9a68d5d96d6b8d01313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 15/90] fix: POD eigenproblem solved as hermitian (sorted real
 eigenvalues, no invalid null modes), complex data kept

---
 pyspod/pod/base.py     |  9 ++++++---
 pyspod/pod/standard.py | 11 +++++++++--
 pyspod/pod/utils.py    |  2 +-
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index 50ea05e..c8bd2a3 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -240,7 +240,9 @@ class Base():
 
         # # Determine whether data is real-valued or complex-valued-valued
         # # to decide on one- or two-sided spectrum from data
-        self._isrealx = np.isreal(data[0]).all()
+        self._isrealx = all(
+            d.dtype.kind != 'c' or bool(np.isreal(d).all()) for d in data_list)
+        dtype = self._float if self._isrealx else self._complex
 
         ## define and check weights
         self.define_weights()
@@ -253,7 +255,7 @@ class Base():
             d, self._max_axis, self._global_shape = \
                 utils_par.distribute_data(data=d, comm=self._comm)
             if i == 0:
-                data = np.zeros((self._nt,) + d.shape[1:], self._float)
+                data = np.zeros((self._nt,) + d.shape[1:], dtype)
             data[tmp_nt:tmp_nt+d.shape[0],...] = d
             tmp_nt += d.shape[0]
         self._weights = utils_par.distribute_dimension(\
@@ -358,7 +360,8 @@ class Base():
         split_res = self.nt % n_blocks
         shape_s_v = data[0,...].shape
         shape_sxv = data[0,...].size
-        t_sum = np.zeros(data[0,...].shape)
+        t_sum = np.zeros(data[0,...].shape,
+            dtype=np.result_type(data.dtype, float))
         for i_blk in range(0, n_blocks):
             lb = i_blk * split_block
             ub = lb + split_block
diff --git a/pyspod/pod/standard.py b/pyspod/pod/standard.py
index e37b1dd..9bc01bd 100644
--- a/pyspod/pod/standard.py
+++ b/pyspod/pod/standard.py
@@ -49,13 +49,20 @@ class Standard(Base):
         ## eigendecomposition
         Q = d.conj().T @ (d * self._weights)
         Q = utils_par.allreduce(Q, comm=self._comm)
-        w, v = scipy.linalg.eig(Q)
+        ## (Q is hermitian: real eigenvalues and orthonormal eigenvectors,
+        ## in ascending order)
+        w, v = scipy.linalg.eigh(Q)
+        w, v = w[::-1], v[:,::-1]
 
         # bases
         self._pr0(f' ')
         self._pr0(f'Calculating standard POD ...')
         st = time.time()
-        phi = np.real(d @ v) / np.sqrt(w[:])
+        ## (null eigenvalues, possibly negative by round-off, have no mode)
+        w_inv = np.zeros_like(w)
+        w_tol = np.finfo(w.dtype).eps * self._nt * np.max(np.abs(w))
+        np.divide(1., np.sqrt(np.maximum(w, 0)), out=w_inv, where=w>w_tol)
+        phi = (d @ v) * w_inv
 
         # truncation and save
         phi_r = phi[:,0:self._n_modes_save]
diff --git a/pyspod/pod/utils.py b/pyspod/pod/utils.py
index e6614e7..89534f9 100644
--- a/pyspod/pod/utils.py
+++ b/pyspod/pod/utils.py
@@ -81,7 +81,7 @@ def compute_coeffs_op(data, results_dir, modes_idx=None,
     st = time.time()
 
     # compute coefficients
-    coeffs = np.transpose(phir) @ np.transpose(data)
+    coeffs = np.transpose(phir.conj()) @ np.transpose(data)
     coeffs = utils_par.allreduce(data=coeffs, comm=comm)
     utils_par.pr0(f'- phir x data: {time.time() - s0} s.', comm)
     st = time.time()
-- 
2.43.0


From 45368f404672fcbf955dbb1e6f6d4496bf541321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 16/90] fix: POD coefficients are projections in the weighted
 inner product, in which the modes are orthonormal

---
 pyspod/pod/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/pod/utils.py b/pyspod/pod/utils.py
index 89534f9..20f8f9e 100644
--- a/pyspod/pod/utils.py
+++ b/pyspod/pod/utils.py
@@ -81,7 +81,7 @@ def compute_coeffs_op(data, results_dir, modes_idx=None,
     st = time.time()
 
     # compute coefficients
-    coeffs = np.transpose(phir.conj()) @ np.transpose(data)
+    coeffs = np.transpose(phir.conj()) @ (weights * np.transpose(data))
     coeffs = utils_par.allreduce(data=coeffs, comm=comm)
     utils_par.pr0(f'- phir x data: {time.time() - s0} s.', comm)
     st = time.time()
-- 
2.43.0


From f64c09b5733483bef75f389d61dd86a95a7e40bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 17/90] fix: parallel variance when a process has no data

---
 pyspod/utils/parallel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/parallel.py b/pyspod/utils/parallel.py
index d24ada5..d053a0c 100644
--- a/pyspod/utils/parallel.py
+++ b/pyspod/utils/parallel.py
@@ -29,15 +29,17 @@ def pvar(data, comm):
     Parallel computation of mean and variance.
     """
     n = np.size(data)
-    m = np.mean(data)
+    # a process may have no data, if there are fewer points than processes
+    m = np.mean(data) if n > 0 else 0.
     d = np.abs(data - m)
     d *= d
-    v = np.sum(d)/n
+    v = np.sum(d)/n if n > 0 else 0.
 
     def op_stat(a, b):
         na, ma, va = a
         nb, mb, vb = b
         n = na + nb
+        if n == 0: return ((0, 0., 0.))
         m = (na*ma + nb*mb)/n
         v = (na*va + nb*vb + na*nb*abs(ma-mb)**2/n)/n
         return ((n, m, v))
-- 
2.43.0


From 70bac7c348ea3e07f830013574e62b1e0e2c93ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 18/90] fix: default share of a process in npy_load

---
 pyspod/utils/parallel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/parallel.py b/pyspod/utils/parallel.py
index d053a0c..4914eb3 100644
--- a/pyspod/utils/parallel.py
+++ b/pyspod/utils/parallel.py
@@ -287,7 +287,7 @@ def npy_load(comm, filename, axis=0, count=None):
             count = sizes[axis]
             size = comm.Get_size()
             rank = comm.Get_rank()
-            count = count // size + count % size > rank
+            count = count // size + (count % size > rank)
         count = np.array(count, dtype=np.int64)
         displ = np.empty_like(count)
         comm.Scan(count, displ, op=MPI.SUM)
-- 
2.43.0


From 2b9495155141da7af206f8a3b2eaaa55f25e3e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 19/90] fix: parallel save and sum of arrays that are not in
 native byte order

---
 pyspod/utils/parallel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/parallel.py b/pyspod/utils/parallel.py
index 4914eb3..607e9dd 100644
--- a/pyspod/utils/parallel.py
+++ b/pyspod/utils/parallel.py
@@ -163,7 +163,7 @@ def _blockdist(N, size, rank):
 def allreduce(data, comm):
     if comm is not None:
         MPI = _get_module_MPI(comm)
-        data = data.view(data.dtype.newbyteorder('='))
+        data = data.astype(data.dtype.newbyteorder('='), copy=False)
         data_reduced = np.zeros_like(data)
         comm.Barrier()
         comm.Allreduce(data, data_reduced, op=MPI.SUM)
@@ -189,7 +189,7 @@ def npy_save(comm, filename, array, axis=0):
     if comm is not None:
         MPI = _get_module_MPI(comm)
         dtlib = _get_module_dtlib(comm)
-        array = array.view(array.dtype.newbyteorder('='))
+        array = array.astype(array.dtype.newbyteorder('='), copy=False)
         array = np.asarray(array)
         dtype = array.dtype
         shape = array.shape
-- 
2.43.0


From 5151a8180d90abf6c862b0908e103edacf15531f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 20/90] fix: read_data of a .npy file raised NameError

---
 pyspod/utils/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/io.py b/pyspod/utils/io.py
index 11afbb6..3b4eeb9 100644
--- a/pyspod/utils/io.py
+++ b/pyspod/utils/io.py
@@ -27,7 +27,7 @@ def read_data(data_file, format=None, comm=None):
         if comm.rank == 0: print(f'reading data with format: {format}')
     format = format.lower()
     if format == '.npy' or format == 'npy':
-        d = npy_load(data_file)
+        d = np.load(data_file)
     elif format == '.nc' or format == 'nc':
         d = xr.open_dataset(data_file)
     elif format == '.mat' or format == 'mat':
-- 
2.43.0


From 5ddf224e331cf49eb6a50c2b721c68326f6c3831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 21/90] fix: MATLAB reader with numpy 2, that has no np.product

---
 pyspod/utils/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index 8b2767c..1acd374 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -527,7 +527,7 @@ class reader_mat():
 
         self._nchunks = comm.bcast(nchunks, root=0)
 
-        self._nx = np.product(self._shape[1:-1])
+        self._nx = np.prod(self._shape[1:-1])
         self._dim = len(self._shape)
         self._xdim = self._dim-2
         self._xshape = self._shape[1:-1]
-- 
2.43.0


From 35986d5d3ba2cfa44e94e4a0bd892b6c9001779c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 22/90] fix: redistribution with padding failed with NameError
 (and float counts)

---
 pyspod/utils/reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index 1acd374..c398e63 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -301,8 +301,9 @@ class reader_2stage():
         use_padding = False if MPI.VERSION >= 4 or max_dist_time*mpi_size*max_dist_xyz*self._nv < np.iinfo(np.int32).max else True
 
         nreqs = 1024
-        recvcounts = np.zeros(mpi_size)
+        recvcounts = np.zeros(mpi_size, dtype=int)
         reqs = []
+        t_waitall = 0
 
         # mpi4py with MPI >= 4 does not have the limitation of INT32_MAX elements
         if not use_padding:
@@ -594,8 +595,9 @@ class reader_mat():
         use_padding = False if MPI.VERSION >= 4 or max_dist_time*mpi_size*max_dist_xyz*self._nv < np.iinfo(np.int32).max else True
 
         nreqs = 1024
-        recvcounts = np.zeros(mpi_size)
+        recvcounts = np.zeros(mpi_size, dtype=int)
         reqs = []
+        t_waitall = 0
 
         # mpi4py with MPI >= 4 does not have the limitation of INT32_MAX elements
         if not use_padding:
-- 
2.43.0


From 859d89459cd81b4819065cd6551b27ff7fe64e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 23/90] fix: normalization of weights for data read from netCDF
 or MATLAB files

---
 pyspod/utils/weights.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/weights.py b/pyspod/utils/weights.py
index 2632a45..9bce6ad 100644
--- a/pyspod/utils/weights.py
+++ b/pyspod/utils/weights.py
@@ -122,9 +122,13 @@ def apply_normalization(
                 print('')
                 print('Normalization by variance - parallel')
                 print('------------------------------------')
-            axis = tuple(np.arange(0, data[...,0].ndim))
             for i in range(0, n_vars):
-                var, _, _ = utils_par.pvar(data[...,i], comm=comm)
+                ## data may be a dictionary of chunks in time (2-stage reader)
+                if isinstance(data, dict):
+                    d = np.concatenate([v['v'][...,i] for v in data.values()])
+                else:
+                    d = data[...,i]
+                var, _, _ = utils_par.pvar(d, comm=comm)
                 weights[...,i] = weights[...,i] / var
         else:
             if comm.rank:
-- 
2.43.0


From 75dec2732a2122b2bf7bc8cca606826506059598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 24/90] fix: weights given as flattened array were distributed
 and normalized along the wrong axis

---
 pyspod/pod/base.py  | 4 ++++
 pyspod/spod/base.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index c8bd2a3..4703ab4 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -331,6 +331,10 @@ class Base():
                     'parameter ``weights`` must have the '
                     'same size as flattened data spatial '
                     'dimensions, that is: ', int(self.nx * self.nv))
+            ## weights may be provided as flattened 1d array
+            if np.ndim(self._weights) == 1:
+                self._weights = np.reshape(
+                    self._weights, self._xshape+(self._nv,))
         else:
             self._weights = np.ones(self._xshape+(self._nv,))
             self._weights_name = 'uniform'
diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 306a0f5..d344172 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -562,6 +562,10 @@ class Base():
                     'parameter ``weights``', np.size(self._weights),
                     'must have the same size as flattened data spatial '
                     'dimensions, that is: ', int(self.nx * self.nv))
+            ## weights may be provided as flattened 1d array
+            if np.ndim(self._weights) == 1:
+                self._weights = np.reshape(
+                    self._weights, self._xshape+(self._nv,))
         else:
             self._weights = np.ones(self._xshape+(self._nv,))
             self._weights_name = 'uniform'
-- 
2.43.0


From 49803cda8a7b2f5806242c568918169b4c6543a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 25/90] fix: reuse of FFT blocks without saving them again

---
 pyspod/spod/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index d344172..d7405c4 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -529,8 +529,8 @@ class Base():
                 os.makedirs(self._modes_dir)
 
         ## create folder to save fft blocks
+        self._blocks_folder = os.path.join(self._savedir_sim, 'blocks')
         if self._savefft:
-            self._blocks_folder = os.path.join(self._savedir_sim, 'blocks')
             if self._rank == 0:
                 if not os.path.exists(self._blocks_folder):
                     os.makedirs(self._blocks_folder)
-- 
2.43.0


From 0f0ff14e1458e26dad238c28abe7705d384acfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 26/90] fix: saved FFT blocks of multi-variable (or flattened)
 data

---
 pyspod/spod/standard.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index 21a2112..1b95142 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -63,7 +63,8 @@ class Standard(Base):
         if blocks_present:
             # load blocks if present
             Q_hats = {}
-            size_qhat = [*self._xshape, self._n_blocks]
+            size_blk = self._get_shape_blocks()
+            size_qhat = [*size_blk, self._n_blocks]
             for f in range(self._n_freq):
                 Q_hats[f] = np.empty(size_qhat, dtype=self._complex)
 
@@ -72,7 +73,7 @@ class Standard(Base):
                 for i_freq in range(0, self._n_freq):
                     file = f'fft_block{i_blk:08d}_freq{i_freq:08d}.npy'
                     path = os.path.join(self._blocks_folder, file)
-                    Q_hats[i_freq][...,i_blk] = np.load(path)
+                    Q_hats[i_freq][...,i_blk] = np.load(path).reshape(size_blk)
             for f in range(self._n_freq):
                 Q_hats[f] = utils_par.distribute_dimension(
                     data=Q_hats[f], max_axis=self._max_axis, comm=self._comm)
@@ -107,7 +108,7 @@ class Standard(Base):
                         Q_blk_hat_fr = Q_blk_hat[i_freq,:]
                         file = f'fft_block{i_blk:08d}_freq{i_freq:08d}.npy'
                         path = os.path.join(self._blocks_folder, file)
-                        shape = [*self._xshape]
+                        shape = self._get_shape_blocks()
                         if self._comm: shape[self._max_axis] = -1
                         Q_blk_hat_fr.shape = shape
                         utils_par.npy_save(
@@ -154,6 +155,12 @@ class Standard(Base):
         return self
 
 
+    def _get_shape_blocks(self):
+        '''Get global shape of an FFT block at a given frequency.'''
+        if self._reader._flattened: return [self._nx, self._nv]
+        return [*self._xshape, self._nv]
+
+
     def _compute_blocks(self, i_blk):
         '''Compute FFT blocks.'''
         # get time index for present block
-- 
2.43.0


From 8d6c00d2d89886ea6ba1ad258d6c8d7468f526ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 27/90] fix: coefficients for a list of frequency ids
 (TypeError without T_lb and T_ub)

---
 pyspod/spod/utils.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index 62635c7..6d979ce 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -118,7 +118,12 @@ def compute_coeffs_op(
     weights = _set_dtype(weights, dtype)
 
     ## initialize frequencies
-    if ((T_lb is None) or (T_ub is None)) and (freq_idx is None):
+    if freq_idx is not None:
+        f_idx_lb = np.min(freq_idx)
+        f_idx_ub = np.max(freq_idx)
+        f_lb = freq[f_idx_lb]
+        f_ub = freq[f_idx_ub]
+    elif (T_lb is None) or (T_ub is None):
         f_idx_lb = 0
         f_idx_ub = n_freq - 1
         f_lb = freq[f_idx_lb]
@@ -126,9 +131,9 @@ def compute_coeffs_op(
     else:
         f_lb, f_idx_lb = post.find_nearest_freq(freq_req=1/T_ub, freq=freq)
         f_ub, f_idx_ub = post.find_nearest_freq(freq_req=1/T_lb, freq=freq)
-    n_freq_r = f_idx_ub - f_idx_lb + 1
     if freq_idx is None:
         freq_idx = np.arange(f_idx_lb, f_idx_ub + 1)
+    n_freq_r = len(freq_idx)
     utils_par.pr0(f'- identified frequencies: {time.time() - st} s.', comm)
     st = time.time()
 
@@ -277,7 +282,12 @@ def compute_coeffs_conv(
     window = window.reshape(window.shape[0], 1)
 
     ## initialize frequencies
-    if ((T_lb is None) or (T_ub is None)) and (freq_idx is None):
+    if freq_idx is not None:
+        f_idx_lb = np.min(freq_idx)
+        f_idx_ub = np.max(freq_idx)
+        f_lb = freq[f_idx_lb]
+        f_ub = freq[f_idx_ub]
+    elif (T_lb is None) or (T_ub is None):
         f_idx_lb = 0
         f_idx_ub = n_freq - 1
         f_lb = freq[f_idx_lb]
@@ -285,9 +295,9 @@ def compute_coeffs_conv(
     else:
         f_lb, f_idx_lb = post.find_nearest_freq(freq_req=1/T_ub, freq=freq)
         f_ub, f_idx_ub = post.find_nearest_freq(freq_req=1/T_lb, freq=freq)
-    n_freq_r = f_idx_ub - f_idx_lb + 1
     if freq_idx is None:
         freq_idx = np.arange(f_idx_lb, f_idx_ub + 1)
+    n_freq_r = len(freq_idx)
     utils_par.pr0(f'- identified frequencies: {time.time() - st} s.', comm)
     st = time.time()
 
-- 
2.43.0


From abeb08911e6101c74c70645da43c4b6c03a181eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 28/90] fix: convolution coefficients of a band of frequencies,
 of single modes or points, in parallel, and saved modes

---
 pyspod/spod/utils.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index 6d979ce..31a4632 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -321,7 +321,8 @@ def compute_coeffs_conv(
     weights = np.reshape(weights, [xsize, 1])
 
     ## compute time mean and subtract from data (reuse the one from fit?)
-    lt_mean = np.mean(data, axis=0, dtype=np.float64)
+    lt_mean = np.mean(data, axis=0,
+        dtype=np.result_type(data.dtype, np.float64))
     data = data - lt_mean
     utils_par.pr0(f'- data and time mean: {time.time() - st} s.', comm)
     st = time.time()
@@ -329,12 +330,12 @@ def compute_coeffs_conv(
     ## get modes
     # phir = _get_modes(results_dir, n_freq_r,
     #     freq_idx, max_axis, xsize, n_modes_save, dt_complex, comm)
-    phir = np.empty([n_freq, xsize, n_modes_save], dtype=dt_complex)
-    for i_freq in freq_idx:
+    phir = np.empty([n_freq_r, xsize, n_modes_save], dtype=dt_complex)
+    for cnt_freq, i_freq in enumerate(freq_idx):
         phi = post.get_modes_at_freq(results_dir, freq_idx=i_freq)
         phi = utils_par.distribute_dimension(phi, max_axis, comm)
         phi = np.reshape(phi,[xsize,n_modes_save])
-        phir[i_freq,...] = phi
+        phir[cnt_freq,...] = phi
     utils_par.pr0(f'- retrieved modes: {time.time() - st} s.', comm)
     st = time.time()
 
@@ -388,8 +389,8 @@ def compute_coeffs_conv(
         #         print(f'{Q_blk.shape = :}')
 
         ## loop over freqs and modes
-        p_tmp = np.squeeze(phir).conj().T
-        x_tmp = (Q_blk * np.squeeze(weights))
+        p_tmp = phir.conj().T
+        x_tmp = Q_blk * weights[:,0]
         # p_tmp = p_tmp[None,...]
         # x_tmp = x_tmp[...]
         # print(f'{coeffs.shape = :}')
@@ -398,6 +399,7 @@ def compute_coeffs_conv(
         # print(f'{phir.shape = :}')
         # print(f'{Q_blk.shape = :}')
         coeffs[:,i,:] = corr * np.einsum('ij,kji->ik', x_tmp, p_tmp)
+    coeffs = utils_par.allreduce(data=coeffs, comm=comm)
     utils_par.pr0(f'- calculation expansion coeffs done: '
                   f'{time.time() - st} s.', comm)
     st = time.time()
@@ -414,7 +416,7 @@ def compute_coeffs_conv(
     if comm:
         shape_phir[max_axis] = -1
         shape_lt_mean[max_axis] = -1
-    phir.shape = shape_tmp
+    phir = np.reshape(np.moveaxis(phir, 0, 1), shape_tmp)
     lt_mean.shape = xshape_nv
     utils_par.npy_save(comm, file_phir, phir, axis=max_axis)
     utils_par.npy_save(comm, file_lt_mean, lt_mean, axis=max_axis)
-- 
2.43.0


From 4ef13ac8aba8c0a9a41d937a515a608f206af92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 29/90] fix: relative errors of negative reference data have a
 sign

---
 pyspod/utils/errors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/errors.py b/pyspod/utils/errors.py
index dbd952a..0ee43d9 100644
--- a/pyspod/utils/errors.py
+++ b/pyspod/utils/errors.py
@@ -17,7 +17,7 @@ def compute_l_errors(data, data_ref, norm_type='l2'):
     n = data.size
     e = np.abs(data - data_ref)
     ef = e.flatten('C')
-    e_rel = ef / data_ref.flatten('C')
+    e_rel = ef / np.abs(data_ref).flatten('C')
     if   norm_type == 'l1'  : error_norm = np.linalg.norm(ef, 1) / n
     elif norm_type == 'l2'  : error_norm = np.linalg.norm(ef) / n
     elif norm_type == 'linf': error_norm = np.amax(ef)
-- 
2.43.0


From d3058d7a705c828ec83c8c3665f7909bd04d61ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 30/90] fix: h1 error is the sum of squared differences, that
 do not cancel each other

---
 pyspod/utils/errors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/errors.py b/pyspod/utils/errors.py
index 0ee43d9..460887b 100644
--- a/pyspod/utils/errors.py
+++ b/pyspod/utils/errors.py
@@ -51,7 +51,7 @@ def compute_h_errors(data, data_ref, dt, norm_type='h1'):
             else:
                 uprime = (data[i,...] - data[i-1,...]) / dt
                 utrueprime = (data_ref[i,...] - data_ref[i-1,...]) / dt
-            err_h1 = err_h1 + (dt * (np.sum(uprime - utrueprime)**2))
+            err_h1 = err_h1 + (dt * np.sum(np.abs(uprime - utrueprime)**2))
         error_norm = np.sqrt(err_h1)
 
     else:
-- 
2.43.0


From f85deae088943619ce6c953934861fd1743f5068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 31/90] fix: index of the nearest coordinates (axes were taken
 in reverse order)

---
 pyspod/utils/postproc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index b072ade..5e9d5e4 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -76,12 +76,11 @@ def find_nearest_coords(coords, x, data_space_dim):
     idx = tuple()
     xi  = tuple()
     for i, coord in enumerate(coords):
-        cnt = len(grid[i,::].shape) - i - 1
         tmp = np.abs(grid[i,::] - coord)
         tmp_idx = np.unravel_index(np.argmin(tmp), tmp.shape)
         tuple_idx = (i,) + tmp_idx
         xi += (grid[tuple_idx],)
-        idx += (tmp_idx[cnt],)
+        idx += (tmp_idx[i],)
     return xi, idx
 
 
-- 
2.43.0


From 2fcaad1805df4cd841c7ba097f0178e5fd655638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 32/90] fix: energy spectrum must not ignore the imaginary part
 of the Fourier coefficients

---
 pyspod/utils/postproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 5e9d5e4..8211b73 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -1527,7 +1527,7 @@ def _apply_2d_vertical_lines(ax, x1, x2, idx1, idx2):
 
 def compute_energy_spectrum(u):
     # transform to Fourier space
-    array_hat = np.real(np.fft.fft(u))
+    array_hat = np.fft.fft(u)
     # normalizing data
     nx = u.size
     array_new = np.copy(array_hat / float(nx))
-- 
2.43.0


From f2fe9876b39c50121196dc4c7ed985b6e522af1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 33/90] fix: get_all_modes changed the working directory, and
 mixed frequencies and modes of parallel results

---
 pyspod/utils/postproc.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 8211b73..f0264e9 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -130,17 +130,12 @@ def get_all_modes(results_path):
     :rtype: numpy.ndarray
     '''
     if isinstance(results_path, str):
-        import glob, os
         modes_path = os.path.join(results_path, 'modes')
-        os.chdir(modes_path)
-        flist = []
-        for filename in glob.glob("*.npy"):
-            flist.append(filename)
-        flist.sort()
-        m = [None] * len(flist)
-        for f_idx, f in enumerate(flist):
-            m[f_idx] = get_data_from_file(f)
-        m = np.stack(m)
+        # files are freq_idx_<freq>.npy, or freq_idx_f<freq>_m<mode>.npy
+        flist = glob.glob(os.path.join(modes_path, 'freq_idx_*.npy'))
+        freqs = {os.path.basename(f).split('_')[2] for f in flist}
+        freqs = sorted({int(splitext(f)[0].lstrip('f')) for f in freqs})
+        m = np.stack([get_modes_at_freq(results_path, f) for f in freqs])
     else:
         raise TypeError('Modes must be a string to modes.npy')
     return m
-- 
2.43.0


From fdd80e1ac49f74bafe394e38bbc1447b65f12056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 34/90] fix: modifying the modes returned to the user altered
 the results on disk

---
 pyspod/utils/postproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index f0264e9..54f5b27 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -154,7 +154,7 @@ def get_data_from_file(filename):
 
     if ext.lower() == '.npy':
         # m = np.load(filename)
-        m = np.lib.format.open_memmap(filename)
+        m = np.lib.format.open_memmap(filename, mode='c')
         # mode='r+', dtype=None, shape=None, fortran_order=False, version=None)
     # elif ext.lower() == '.mat':
     #     pass
-- 
2.43.0


From 97a5e1be2fb387aa673862dbf40173486fa57812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 35/90] fix: mode tracers of several variables, and with a
 spatial dimension of one point

---
 pyspod/utils/postproc.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 54f5b27..e8bd937 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -1001,14 +1001,14 @@ def plot_mode_tracers(
         if not isinstance(coords, tuple):
             raise TypeError('each element of `coords` must be a tuple.')
         coords, idx_coords = find_nearest_coords(coords, x, xdim)
-        fig, spec = plt.subplots(
-            ncols=1, nrows=len(modes_idx),
-            figsize=(wsize,1.5*len(modes_idx)),
-            squeeze=False, sharex=True)
-        cnt = 0
         for var_id in vars_idx:
+            fig, spec = plt.subplots(
+                ncols=1, nrows=len(modes_idx),
+                figsize=(wsize,1.5*len(modes_idx)),
+                squeeze=False, sharex=True)
+            cnt = 0
             for mode_id in modes_idx:
-                mode = np.squeeze(modes[...,var_id,mode_id])
+                mode = modes[...,var_id,mode_id]
                 if fftshift:
                     mode = np.fft.fftshift(mode, axes=1)
                 mode_point_phase = mode[idx_coords] * phase.conj()
-- 
2.43.0


From 30c8d89b8c6ad2ee12ea2af4198e115ec6c08f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 36/90] fix: lines through the maximum of the plotted mode were
 drawn at the wrong coordinates

---
 pyspod/utils/postproc.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index e8bd937..c8efd1a 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -851,9 +851,9 @@ def plot_3d_modes_slice_at_frequency(
                     idx_x1,idx_x2 = \
                         np.where(np.abs(mode) == np.amax(np.abs(mode)))
                     real_ax = _apply_2d_vertical_lines(
-                        real_ax, x1, x2, idx_x1, idx_x2)
+                        real_ax, xx, yy, idx_x1, idx_x2)
                     imag_ax = _apply_2d_vertical_lines(
-                        imag_ax, x1, x2, idx_x1, idx_x2)
+                        imag_ax, xx, yy, idx_x1, idx_x2)
                 real_divider = make_axes_locatable(real_ax)
                 imag_divider = make_axes_locatable(imag_ax)
                 real_cax = real_divider.append_axes("right",size="5%",pad=0.05)
@@ -896,7 +896,7 @@ def plot_3d_modes_slice_at_frequency(
                     idx_x1,idx_x2 = \
                         np.where(np.abs(mode) == np.amax(np.abs(mode)))
                     real_ax = _apply_2d_vertical_lines(
-                        real_ax, x1, x2, idx_x1, idx_x2)
+                        real_ax, xx, yy, idx_x1, idx_x2)
                 real_divider = make_axes_locatable(real_ax)
                 real_cax = real_divider.append_axes("right",size="5%",pad=0.05)
                 plt.colorbar(real, cax=real_cax)
@@ -1508,8 +1508,9 @@ def _apply_2d_coastlines(coastlines, ax):
     return ax
 
 def _apply_2d_vertical_lines(ax, x1, x2, idx1, idx2):
-    ax.axhline(x1[idx1], xmin=0, xmax=1,color='k',linestyle='--')
-    ax.axvline(x2[idx2], ymin=0, ymax=1,color='k',linestyle='--')
+    for i1, i2 in zip(idx1, idx2):
+        ax.axhline(x2[i2], xmin=0, xmax=1,color='k',linestyle='--')
+        ax.axvline(x1[i1], ymin=0, ymax=1,color='k',linestyle='--')
     return ax
 
 # ---------------------------------------------------------------------------
-- 
2.43.0


From ea2b25bb9f41b2e79a4b252b6862d3ba1b3234fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 37/90] fix: data tracers that do not start at the first time

---
 pyspod/spod/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index d7405c4..0b0fe98 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -986,7 +986,7 @@ class Base():
         See method implementation in the postproc module.
         '''
         data = self.get_data(
-            data, t_0=time_limits[0], t_end=time_limits[-1])
+            data, t_0=0, t_end=time_limits[-1])
         post.plot_data_tracers(
             X=data, coords_list=coords_list, x=x, time_limits=time_limits,
             vars_idx=vars_idx, title=title, figsize=figsize,
-- 
2.43.0


From 40117b0bec84a269c9a5895eba3a41c6957b381e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:18 +0000
Subject: [PATCH 38/90] fix: normalization of weights in parallel when the
 variables are the largest dimension

---
 pyspod/utils/weights.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pyspod/utils/weights.py b/pyspod/utils/weights.py
index 9bce6ad..ef8aa2c 100644
--- a/pyspod/utils/weights.py
+++ b/pyspod/utils/weights.py
@@ -122,14 +122,19 @@ def apply_normalization(
                 print('')
                 print('Normalization by variance - parallel')
                 print('------------------------------------')
-            for i in range(0, n_vars):
-                ## data may be a dictionary of chunks in time (2-stage reader)
-                if isinstance(data, dict):
-                    d = np.concatenate([v['v'][...,i] for v in data.values()])
-                else:
-                    d = data[...,i]
-                var, _, _ = utils_par.pvar(d, comm=comm)
-                weights[...,i] = weights[...,i] / var
+            ## data may be a dictionary of chunks in time (2-stage reader)
+            if isinstance(data, dict):
+                data = np.concatenate([v['v'] for v in data.values()])
+            ## the largest, hence distributed, dimension may be the variables
+            n_vars_local = data.shape[-1]
+            if comm.allreduce(n_vars_local) == n_vars:
+                for i in range(0, n_vars_local):
+                    var = np.var(data[...,i])
+                    weights[...,i] = weights[...,i] / var
+            else:
+                for i in range(0, n_vars):
+                    var, _, _ = utils_par.pvar(data[...,i], comm=comm)
+                    weights[...,i] = weights[...,i] / var
         else:
             if comm.rank:
                 print('')
-- 
2.43.0


From a36dbfb5c37412df29a3e1eeae011e99b7345a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 39/90] fix: streaming SPOD doubled a two-sided spectrum and
 missed the last frequency of odd n_dft

---
 pyspod/spod/streaming.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index 9fd9e8f..6857626 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -76,13 +76,13 @@ class Streaming(Base):
         dft = np.fft.fft(np.identity(self._n_dft))
 
         ## check if real for frequency axis
-        if self._isrealx:
-            dft[:,1:n_freq-1] = 2 * dft[:,1:n_freq-1]
-            if self._fullspectrum:
-                freq_idx = np.arange(0, int(self._n_dft), 1)
-            else:
-                freq_idx = np.arange(0, int(self._n_dft/2+1))
+        ## (one-sided spectrum: double all but the zero and Nyquist
+        ## frequencies; the latter is present only if n_dft is even)
+        if self._isrealx and not self._fullspectrum:
+            freq_idx = np.arange(0, int(self._n_dft/2+1))
             dft = dft[:,freq_idx]
+            ub = n_freq - 1 if self._n_dft % 2 == 0 else n_freq
+            dft[:,1:ub] = 2 * dft[:,1:ub]
 
         # ## convergence tests
         # mse_prev = np.empty([int(1e3),n_m_save,n_freq],dtype=complex) * np.nan
-- 
2.43.0


From 0a078032e6a596615703aff0a82c08408c687eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 40/90] fix: streaming SPOD failed with a single mode or a
 single point

---
 pyspod/spod/streaming.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index 6857626..cf90255 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -160,10 +160,10 @@ class Streaming(Base):
                         x = x_hat[:,[i_freq]] * sqrt_w[:]
 
                         ## old basis
-                        U = np.squeeze(u_hat[:,i_freq,:])
+                        U = u_hat[:,i_freq,:]
 
                         ## old singular values
-                        S = np.diag(np.squeeze(self._eigs[:,i_freq]))
+                        S = np.diag(self._eigs[:,i_freq])
 
                         ## product U^H*x needed in eqns. (27,32)
                         Ux = np.matmul(U.conj().T, x)
-- 
2.43.0


From 2a095267105c0e27d810736d528e079affaa1781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 41/90] fix: streaming SPOD modes were NaN with dependent
 realisations or zero weights

---
 pyspod/spod/streaming.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index cf90255..04d6ec8 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -178,7 +178,10 @@ class Streaming(Base):
                         abs_up = np.sqrt(abs_up)
 
                         ## normalized orthogonal complement
-                        u_new = u_p / abs_up
+                        ## (zero if x belongs to the span of the old basis)
+                        u_new = np.divide(
+                            u_p, abs_up, out=np.zeros_like(u_p),
+                            where=np.abs(abs_up)>0)
                         del u_p
 
                         ## build K matrix and compute its SVD, eqn. (32)
@@ -222,7 +225,10 @@ class Streaming(Base):
                 #     self._eigs**2)**2) / (S_hat_prev**2)
 
         ## rescale such that <U_i,U_j>_E = U_i^H * W * U_j = delta_ij
-        phi = u_hat[:,:,0:n_m_save] * (1 / sqrt_w[:,:,np.newaxis])
+        ## (points of zero weight do not contribute, and have no mode)
+        inv_sqrt_w = np.divide(
+            1, sqrt_w, out=np.zeros_like(sqrt_w), where=sqrt_w>0)
+        phi = u_hat[:,:,0:n_m_save] * inv_sqrt_w[:,:,np.newaxis]
 
         # ## shuffle and reshape
         phi = np.einsum('ijk->jik', phi)
-- 
2.43.0


From 2401e5746bd1b663738a2b63230581090eab2165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 42/90] fix: streaming SPOD stored the first snapshot divided
 by nt as mean

---
 pyspod/spod/streaming.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index 04d6ec8..7c2761d 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -257,6 +257,9 @@ class Streaming(Base):
         ## transpose eigs
         self._eigs = self._eigs.T
 
+        ## long-time mean of the snapshots seen
+        self._lt_mean = mu.real.copy() if self._isrealx else mu
+
         # store and save results
         self._store_and_save()
         self._pr0(f'------------------------------------')
-- 
2.43.0


From 99e34e50115fd6b9723ea736cff15bfef0ab1416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 43/90] fix: weights without the axis of a single variable were
 normalized at one point only

---
 pyspod/pod/base.py  | 5 +++--
 pyspod/spod/base.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index 4703ab4..a9ea2e9 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -331,8 +331,9 @@ class Base():
                     'parameter ``weights`` must have the '
                     'same size as flattened data spatial '
                     'dimensions, that is: ', int(self.nx * self.nv))
-            ## weights may be provided as flattened 1d array
-            if np.ndim(self._weights) == 1:
+            ## weights may be provided as flattened 1d array, or without
+            ## the axis of a single variable
+            if np.ndim(self._weights) == 1 or self._nv == 1:
                 self._weights = np.reshape(
                     self._weights, self._xshape+(self._nv,))
         else:
diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 0b0fe98..126432f 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -562,8 +562,9 @@ class Base():
                     'parameter ``weights``', np.size(self._weights),
                     'must have the same size as flattened data spatial '
                     'dimensions, that is: ', int(self.nx * self.nv))
-            ## weights may be provided as flattened 1d array
-            if np.ndim(self._weights) == 1:
+            ## weights may be provided as flattened 1d array, or without
+            ## the axis of a single variable
+            if np.ndim(self._weights) == 1 or self._nv == 1:
                 self._weights = np.reshape(
                     self._weights, self._xshape+(self._nv,))
         else:
-- 
2.43.0


From 010d6bbf87177285400f586cc65dc8388ade0ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 44/90] fix: netCDF files without, or with a repeated, time
 coordinate could not be read

---
 pyspod/utils/reader.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index c398e63..ef1e349 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -275,10 +275,7 @@ class reader_2stage():
             if read_cnt > 0:
                 with xr.open_dataset(k, cache=False, decode_times=False) as d:
                     first_var = list(d[self._variables[0]].dims)[0]
-                    time_from = d[first_var].values[read_js-cum_t]
-                    time_to = d[first_var].values[read_je-cum_t-1] # .sel uses inclusive indexing on both ends!
-
-                    with d.sel({first_var: slice(time_from,time_to)},drop=True) as dvars:
+                    with d.isel({first_var: slice(read_js-cum_t,read_je-cum_t)}) as dvars:
                         for idx, var in enumerate(self._variables):
                             vals = dvars[var].values
                             input_data[cum_read:cum_read+read_cnt,:,idx] = vals.reshape(vals.shape[0],-1)#.copy()
-- 
2.43.0


From 2772e6b5207b69ab299fed7866b59d5e9a25dc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 45/90] fix: integer data read from files were taken as complex

---
 pyspod/utils/reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index ef1e349..730cadc 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -209,7 +209,7 @@ class reader_2stage():
                 shape = d.shape
                 self._file_time[f] = (nt, nt+shape[0])
                 nt += shape[0]
-                if d.dtype != 'float32' and d.dtype != 'float64':
+                if d.dtype.kind == 'c':
                     self._is_real = False
                 d.close()
                 self._files_size += os.path.getsize(f)/1024/1024/1024 # GB
@@ -504,7 +504,7 @@ class reader_mat():
             f = h5py.File(data_list[0], "r")
             group_key = list(f.keys())[0]
             data = f.get(group_key)
-            if data.dtype != 'float32' and data.dtype != 'float64':
+            if data.dtype.kind not in 'fiu':
                 self._is_real = False
 
             self._shape = (nt, data.shape[1], data.shape[2], data.shape[3], data.shape[0])
-- 
2.43.0


From ac8eacdcf6b4810ccbac8a57ad94bce2e1594631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:31 +0000
Subject: [PATCH 46/90] fix: back to the SPOD weights without variable axis
 that test_weights_3d pins

---
 pyspod/spod/base.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 126432f..0b0fe98 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -562,9 +562,8 @@ class Base():
                     'parameter ``weights``', np.size(self._weights),
                     'must have the same size as flattened data spatial '
                     'dimensions, that is: ', int(self.nx * self.nv))
-            ## weights may be provided as flattened 1d array, or without
-            ## the axis of a single variable
-            if np.ndim(self._weights) == 1 or self._nv == 1:
+            ## weights may be provided as flattened 1d array
+            if np.ndim(self._weights) == 1:
                 self._weights = np.reshape(
                     self._weights, self._xshape+(self._nv,))
         else:
-- 
2.43.0


From e72f0358c37f2cb97dd82437e502d06d0e6f2a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:49 +0000
Subject: [PATCH 47/90] fix: streaming SPOD with realisations in the span of
 the previous ones (basis lost orthogonality)

---
 pyspod/spod/streaming.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index 7c2761d..4685150 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -172,10 +172,18 @@ class Streaming(Base):
                         ## orthogonal complement to U, eqn. (27)
                         u_p = x - np.matmul(U, Ux)
 
+                        ## orthogonalize again (the round-off in a small
+                        ## complement is not orthogonal to U)
+                        Up = np.matmul(U.conj().T, u_p)
+                        Up = utils_par.allreduce(Up, comm=self._comm)
+                        u_p = u_p - np.matmul(U, Up)
+
                         ## norm of orthogonal complement
                         abs_up = np.matmul(u_p.conj().T, u_p)
                         abs_up = utils_par.allreduce(abs_up, comm=self._comm)
                         abs_up = np.sqrt(abs_up)
+                        eps = np.finfo(self._float).eps
+                        abs_up[np.abs(abs_up) <= eps * la.norm(Ux)] = 0
 
                         ## normalized orthogonal complement
                         ## (zero if x belongs to the span of the old basis)
-- 
2.43.0


From dfebfe2d50d02aa702858f7c27519e14dd0686db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:06 +0000
Subject: [PATCH 48/90] fix: end of the data stream of a single point, and
 hidden reading errors, in streaming SPOD

---
 pyspod/spod/streaming.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index 4685150..1f97602 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -98,12 +98,11 @@ class Streaming(Base):
 
             ## get new snapshot and abort if data stream runs dry
             if ti > 0:
-                try:
-                    x_new = self._reader.get_data(ti)
-                    x_new = np.reshape(x_new,(flat_dim,1))
-                except:
+                if ti >= self._nt:
                     self._pr0(f'--> Data stream ended.')
                     break
+                x_new = self._reader.get_data(ti)
+                x_new = np.reshape(x_new,(flat_dim,1))
 
             ## update sample mean
             mu_old = mu
-- 
2.43.0


From fcb2621a8bf6de8ed700d5ac2ff910086e83faae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:31 +0000
Subject: [PATCH 49/90] fix: negligible complement to the streaming SPOD basis
 is round-off

---
 pyspod/spod/streaming.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index 1f97602..1cbe6ae 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -181,8 +181,8 @@ class Streaming(Base):
                         abs_up = np.matmul(u_p.conj().T, u_p)
                         abs_up = utils_par.allreduce(abs_up, comm=self._comm)
                         abs_up = np.sqrt(abs_up)
-                        eps = np.finfo(self._float).eps
-                        abs_up[np.abs(abs_up) <= eps * la.norm(Ux)] = 0
+                        tol = 1e3 * np.finfo(self._float).eps * la.norm(Ux)
+                        abs_up[np.abs(abs_up) <= tol] = 0
 
                         ## normalized orthogonal complement
                         ## (zero if x belongs to the span of the old basis)
-- 
2.43.0


From 167f260c17141afe6e1b6384962d6b897e3b58d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:37 +0000
Subject: [PATCH 50/90] fix: modes_idx of the coefficients was ignored

---
 pyspod/pod/utils.py  | 1 +
 pyspod/spod/utils.py | 9 +++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyspod/pod/utils.py b/pyspod/pod/utils.py
index 20f8f9e..7263023 100644
--- a/pyspod/pod/utils.py
+++ b/pyspod/pod/utils.py
@@ -46,6 +46,7 @@ def compute_coeffs_op(data, results_dir, modes_idx=None,
     ## get required parameters
     nv     = params['n_variables']
     xdim   = params['n_space_dims']
+    if modes_idx is not None: phir = phir[...,modes_idx]
     n_modes_save = phir.shape[-1]
 
     ## set datatypes
diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index 31a4632..1e18ed8 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -114,6 +114,7 @@ def compute_coeffs_op(
     freq   = eigs_freq['freq']
     n_freq = params['n_freq']
     n_modes_save = params['n_modes_save']
+    if modes_idx is not None: n_modes_save = len(modes_idx)
     data = _set_dtype(data, dtype)
     weights = _set_dtype(weights, dtype)
 
@@ -163,7 +164,8 @@ def compute_coeffs_op(
 
     ## get modes
     phir = _get_modes(results_dir, n_freq_r,
-        freq_idx, max_axis, xsize, n_modes_save, dt_complex, comm)
+        freq_idx, max_axis, xsize, n_modes_save, dt_complex, comm,
+        modes_idx=modes_idx)
     utils_par.pr0(f'- retrieved modes: {time.time() - st} s.', comm)
     st = time.time()
 
@@ -265,6 +267,7 @@ def compute_coeffs_conv(
     n_freq = params['n_freq']
     n_dft  = params['n_dft']
     n_modes_save = params['n_modes_save']
+    if modes_idx is not None: n_modes_save = len(modes_idx)
     data = _set_dtype(data, dtype)
     weights = _set_dtype(weights, dtype)
 
@@ -334,6 +337,7 @@ def compute_coeffs_conv(
     for cnt_freq, i_freq in enumerate(freq_idx):
         phi = post.get_modes_at_freq(results_dir, freq_idx=i_freq)
         phi = utils_par.distribute_dimension(phi, max_axis, comm)
+        if modes_idx is not None: phi = phi[...,modes_idx]
         phi = np.reshape(phi,[xsize,n_modes_save])
         phir[cnt_freq,...] = phi
     utils_par.pr0(f'- retrieved modes: {time.time() - st} s.', comm)
@@ -713,7 +717,7 @@ def _get_required_data(results_dir):
 
 
 def _get_modes(results_dir, n_freq, freq_idx,
-    max_axis, xsize, n_modes_save, dt_complex, comm):
+    max_axis, xsize, n_modes_save, dt_complex, comm, modes_idx=None):
     ## order weights and modes such that each frequency contains
     ## all required modes (n_modes_save)
     ## - freq_0: modes from 0 to n_modes_save
@@ -726,6 +730,7 @@ def _get_modes(results_dir, n_freq, freq_idx,
     for i_freq in freq_idx:
         phi = post.get_modes_at_freq(results_dir, freq_idx=i_freq)
         phi = utils_par.distribute_dimension(phi, max_axis, comm)
+        if modes_idx is not None: phi = phi[...,modes_idx]
         phi = np.reshape(phi,[xsize,n_modes_save])
         for i_mode in range(n_modes_save):
             jump_freq = n_modes_save * cnt_freq + i_mode
-- 
2.43.0


From a0cd28a5c1ebf233382075331f428c018a7f35d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:57 +0000
Subject: [PATCH 51/90] fix: geographic weights of a grid with three latitudes
 raised IndexError

---
 pyspod/utils/weights.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/weights.py b/pyspod/utils/weights.py
index ef8aa2c..a073fbf 100644
--- a/pyspod/utils/weights.py
+++ b/pyspod/utils/weights.py
@@ -28,7 +28,7 @@ def geo_trapz_2D(x1_dim, x2_dim, n_vars, **kwargs):
 
     diff_lat = np.diff(lat_rad)
     diff_lat = diff_lat[0:-1]
-    d_lat = np.hstack([diff_lat[1]/2, diff_lat, diff_lat[-1]/2])
+    d_lat = np.hstack([diff_lat[0]/2, diff_lat, diff_lat[-1]/2])
 
     tmp = np.diff(lon_rad, axis=0)
     d_lon = np.hstack([lon_rad[0]/2, tmp])
@@ -68,7 +68,7 @@ def geo_trapz_3D(x1_dim, x2_dim, x3_dim, n_vars, **kwargs):
 
     diff_lat = np.diff(lat_rad)
     diff_lat = diff_lat[0:-1]
-    d_lat = np.hstack([diff_lat[1]/2, diff_lat, diff_lat[-1]/2])
+    d_lat = np.hstack([diff_lat[0]/2, diff_lat, diff_lat[-1]/2])
 
     tmp = np.diff(lon_rad, axis=0)
     d_lon = np.hstack([lon_rad[0]/2, tmp])
-- 
2.43.0


From a0a01c7c43ccf11791c5ac93b535d3bb7e6385a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:57 +0000
Subject: [PATCH 52/90] fix: 3D geographic weights of several variables were
 not laid out as the data

---
 pyspod/utils/weights.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/weights.py b/pyspod/utils/weights.py
index a073fbf..55eb0c7 100644
--- a/pyspod/utils/weights.py
+++ b/pyspod/utils/weights.py
@@ -80,7 +80,7 @@ def geo_trapz_3D(x1_dim, x2_dim, x3_dim, n_vars, **kwargs):
     dA = np.abs(R**2 * np.cos(lat_rad) * d_lon.T * d_lat).T
     dA = np.tile(dA, [x3_dim, 1, 1])
     dA = np.einsum('ijk->jki', dA)
-    dA = np.tile(dA, [n_vars, 1, 1])
+    if n_vars > 1: dA = np.stack([dA] * n_vars, axis=-1)
     w = { 'weights_name': 'geo_trapz_3D', 'weights': dA }
     return w
 
-- 
2.43.0


From 12c7de58f7464fa5960ffc7bdde7c2843d89f0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 53/90] fix: parallel save and load of arrays with an empty
 dimension

---
 pyspod/utils/parallel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/parallel.py b/pyspod/utils/parallel.py
index 607e9dd..d264021 100644
--- a/pyspod/utils/parallel.py
+++ b/pyspod/utils/parallel.py
@@ -230,7 +230,7 @@ def npy_save(comm, filename, array, axis=0):
         comm.Bcast(offset, root=0)
         datatype = dtlib.from_numpy_dtype(dtype)
 
-        if shape[axis] > 0:
+        if np.prod(shape) > 0:
             subarray = datatype.Create_subarray(
                 sizes=sizes,
                 subsizes=shape,
@@ -303,7 +303,7 @@ def npy_load(comm, filename, axis=0, count=None):
             mpi_order = MPI.ORDER_FORTRAN
         datatype = dtlib.from_numpy_dtype(dtype)
 
-        if shape[axis] > 0:
+        if np.prod(shape) > 0:
             subarray = datatype.Create_subarray(
                 sizes=sizes,
                 subsizes=shape,
-- 
2.43.0


From 59f832072ca709d20d4c94d3af09d86a56ca6a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 54/90] fix: parallel load of arrays that are not in native
 byte order

---
 pyspod/utils/parallel.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/parallel.py b/pyspod/utils/parallel.py
index d264021..760373e 100644
--- a/pyspod/utils/parallel.py
+++ b/pyspod/utils/parallel.py
@@ -301,7 +301,9 @@ def npy_load(comm, filename, axis=0, count=None):
             mpi_order = MPI.ORDER_C
         else:
             mpi_order = MPI.ORDER_FORTRAN
-        datatype = dtlib.from_numpy_dtype(dtype)
+        ## (bytes are read in native order, and taken for what they are)
+        native = dtype.newbyteorder('=')
+        datatype = dtlib.from_numpy_dtype(native)
 
         if np.prod(shape) > 0:
             subarray = datatype.Create_subarray(
@@ -318,8 +320,9 @@ def npy_load(comm, filename, axis=0, count=None):
         file.Set_view(disp=offset, etype=datatype, filetype=subarray)
         datatype.Free()
         subarray.Free()
-        array = np.empty(shape, dtype, npy_order)
+        array = np.empty(shape, native, npy_order)
         file.Read_all(array)
+        array = array.view(dtype)
         file.Close()
     else:
         array = np.load(filename)
-- 
2.43.0


From 952b0d2131078321c6878240cbbee395a9b6e39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:55 +0000
Subject: [PATCH 55/90] fix: data type of the emulation scaler in any letter
 case

---
 pyspod/emulation/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/emulation/base.py b/pyspod/emulation/base.py
index 2ee8c22..bb2e5a3 100644
--- a/pyspod/emulation/base.py
+++ b/pyspod/emulation/base.py
@@ -47,7 +47,7 @@ class Base():
             else:
                 for i in range (data.shape[0]):
                     vec[i] = 1.0
-        elif self._data_type == 'complex':
+        elif self._data_type.lower() == 'complex':
             vec = np.zeros(data.shape[0], dtype=complex)
             if self._normalization.lower() == 'localmax':
                 max_re = np.amax(data[:,:].real,axis=1) * 10
-- 
2.43.0


From c809f870701c33741b2b648d8b94c77123166cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:55 +0000
Subject: [PATCH 56/90] fix: emulation scaling of coefficients whose real or
 imaginary part vanishes gave NaN

---
 pyspod/emulation/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyspod/emulation/base.py b/pyspod/emulation/base.py
index bb2e5a3..4aadc0d 100644
--- a/pyspod/emulation/base.py
+++ b/pyspod/emulation/base.py
@@ -83,13 +83,16 @@ class Base():
             print('No normalization performed')
             return
         data_out = np.zeros_like(data)
+        ## (parts that are zero at all times have no scale, and stay zero)
+        vec_re = np.where(vec.real == 0, 1, vec.real)
+        vec_im = np.where(vec.imag == 0, 1, vec.imag)
         if self._data_type.lower() == 'real':
             for j in range(data.shape[1]):
-                data_out[:,j]= data[:,j] / vec.real
+                data_out[:,j]= data[:,j] / vec_re
         elif self._data_type.lower() == 'complex':
             for j in range(data.shape[1]):
-                data_out.real[:,j] = data[:,j].real / vec.real
-                data_out.imag[:,j] = data[:,j].imag / vec.imag
+                data_out.real[:,j] = data[:,j].real / vec_re
+                data_out.imag[:,j] = data[:,j].imag / vec_im
         else:
             raise TypeError('You need to specify data_type; real or complex.')
         return data_out
-- 
2.43.0


From bd6bc582f6c1e945e19f10ff99664326893da3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:55 +0000
Subject: [PATCH 57/90] fix: NameError instead of ValueError for inference on
 too short data

---
 pyspod/emulation/neural_nets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/emulation/neural_nets.py b/pyspod/emulation/neural_nets.py
index 84ca594..258a2d1 100644
--- a/pyspod/emulation/neural_nets.py
+++ b/pyspod/emulation/neural_nets.py
@@ -155,7 +155,7 @@ class Neural_Nets(Base):
         nt = data_in.shape[1]
         # check the size of the input array
         if nt < n_seq_in:
-            raise ValueError(network.lower(), 'data input error.')
+            raise ValueError(self._network.lower(), 'data input error.')
 
         # initialization of variables and vectors
         input_batch = np.zeros([1, n_seq_in, n_features])
-- 
2.43.0


From f410976789ce69b11985ce2b5be6ec4d6bb7687f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:55 +0000
Subject: [PATCH 58/90] fix: inference failed unless the output length divides
 the predicted times

---
 pyspod/emulation/neural_nets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/emulation/neural_nets.py b/pyspod/emulation/neural_nets.py
index 258a2d1..b87c169 100644
--- a/pyspod/emulation/neural_nets.py
+++ b/pyspod/emulation/neural_nets.py
@@ -197,8 +197,8 @@ class Neural_Nets(Base):
         coeffs[:,:n_seq_in] = data_in[:,:n_seq_in]
         for i in range(cnt):
             lb = (n_seq_out * i) + n_seq_in
-            ub =  n_seq_in + (n_seq_out * (i + 1))
-            coeffs[:,lb:ub] = np.transpose(coeffs_tmp[:,i,:])
+            ub = min(n_seq_in + (n_seq_out * (i + 1)), nt)
+            coeffs[:,lb:ub] = np.transpose(coeffs_tmp[:ub-lb,i,:])
         return coeffs
 
 
-- 
2.43.0


From 7fdb40d1faeb45210e175ca9d6025cbaa28e859d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:35 +0000
Subject: [PATCH 59/90] fix: networks of windows of a single snapshot (the
 default) were trained to NaN

The gradient of the recurrent weights vanishes for them, and the update
divided zero by zero as the optimizer had a vanishing epsilon.
---
 pyspod/emulation/neural_nets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/emulation/neural_nets.py b/pyspod/emulation/neural_nets.py
index b87c169..569c697 100644
--- a/pyspod/emulation/neural_nets.py
+++ b/pyspod/emulation/neural_nets.py
@@ -68,7 +68,7 @@ class Neural_Nets(Base):
         self.model.add(Dense(
             self._n_seq_out * self._n_features, activation='linear'))
         opt = optimizers.Adam(
-            learning_rate=0.001, beta_1=0.9, beta_2=0.999, epsilon=0,
+            learning_rate=0.001, beta_1=0.9, beta_2=0.999, epsilon=1e-7,
             amsgrad=False)
         self.model.compile(
             optimizer=opt, loss='mse', metrics=[coeff_determination])
-- 
2.43.0


From d4bd465dd57f9c62ac5aa922ce5ac88900e707a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:49 +0000
Subject: [PATCH 60/90] fix: read_config dropped all but the first parameter of
 an item of the configuration

---
 pyspod/utils/io.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyspod/utils/io.py b/pyspod/utils/io.py
index 3b4eeb9..9a7e5af 100644
--- a/pyspod/utils/io.py
+++ b/pyspod/utils/io.py
@@ -79,9 +79,8 @@ def read_config(parsed_file=None):
 def _parse_yaml(l):
     params = dict()
     for i,d in enumerate(l):
-        k = list(d.keys())[0]
-        v = d[k]
-        params[k] = v
+        for k,v in d.items():
+            params[k] = v
     return params
 
 
-- 
2.43.0


From b4845432237195b4e2167e81a0118979af0a4033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:49 +0000
Subject: [PATCH 61/90] fix: read_config of a configuration with an empty
 optional section raised TypeError

---
 pyspod/utils/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/io.py b/pyspod/utils/io.py
index 9a7e5af..2cd97c4 100644
--- a/pyspod/utils/io.py
+++ b/pyspod/utils/io.py
@@ -67,7 +67,7 @@ def read_config(parsed_file=None):
     params_req = _parse_yaml(l_req)
     f, k = _check_keys(params_req, keys_r)
     f, _ = _check_keys(l, 'optional')
-    if f:
+    if f and l['optional'] is not None:
         l_opt = l['optional']
         params_opt = _parse_yaml(l_opt)
         params = {**params_req, **params_opt}
-- 
2.43.0


From 656f06525d1b80e3bd4dc71441c0e27809c439df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:49 +0000
Subject: [PATCH 62/90] fix: read_config of a path object, or of a file whose
 name starts with a dash

---
 pyspod/utils/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/io.py b/pyspod/utils/io.py
index 2cd97c4..b8a200b 100644
--- a/pyspod/utils/io.py
+++ b/pyspod/utils/io.py
@@ -53,7 +53,7 @@ def read_config(parsed_file=None):
     parser = argparse.ArgumentParser(description='Config file.')
     parser.add_argument('--config_file', help='Configuration file.')
     if parsed_file:
-        args = parser.parse_args(['--config_file', parsed_file])
+        args = parser.parse_args([f'--config_file={parsed_file}'])
     else:
         args = parser.parse_args()
 
-- 
2.43.0


From a1b860a3396dc1375373b02a4f9881813b61b59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:10 +0000
Subject: [PATCH 63/90] fix: constructing a model must not change savedir in
 the caller's params dictionary

---
 pyspod/pod/base.py  | 5 ++++-
 pyspod/spod/base.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index a9ea2e9..ed3d11a 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -29,6 +29,9 @@ class Base():
     Proper Orthogonal Decomposition base class.
     '''
     def __init__(self, params, weights=None, comm=None):
+        ## (what is added below stays out of the dictionary of the caller)
+        params = dict(params)
+
         # store mandatory parameters in class
         self._dt   = params['time_step']
         self._xdim = params['n_space_dims']
@@ -46,7 +49,7 @@ class Base():
         params['savedir'] = self._savedir
 
         ## parse other inputs
-        self._params = dict(params)
+        self._params = params
         self._weights_tmp = weights
         self._comm = comm
         if self._dtype == 'double':
diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 0b0fe98..3571e65 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -48,6 +48,9 @@ class Base():
     Spectral Proper Orthogonal Decomposition base class.
     '''
     def __init__(self, params, weights=None, comm=None):
+        ## (what is added below stays out of the dictionary of the caller)
+        params = dict(params)
+
         ##--- required
         self._n_dft = int(params['n_dft'])   # number of DFT (per block)
         self._dt    = params['time_step'   ] # time-step of the data
@@ -83,7 +86,7 @@ class Base():
         params['savedir'] = self._savedir
 
         ## parse other inputs
-        self._params = dict(params)
+        self._params = params
         self._weights_tmp = weights
         self._comm = comm
         if self._dtype == 'double':
-- 
2.43.0


From 4d9297ae1bca2cd34b51da0be76fe1c9ee240df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:10 +0000
Subject: [PATCH 64/90] fix: compute_coeffs_op and compute_reconstruction of a
 model ignored the directory given

They took the last one of the model: reconstructing from the coefficients
of one selection after those of another were computed returned the other.
---
 pyspod/pod/base.py  | 4 ++--
 pyspod/spod/base.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index ed3d11a..c523c67 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -390,7 +390,7 @@ class Base():
         See method implementation in the pod.utils module.
         '''
         file_coeffs, coeffs_dir = utils_pod.compute_coeffs_op(\
-            data, results_dir=self._savedir_sim, modes_idx=modes_idx,
+            data, results_dir=results_dir, modes_idx=modes_idx,
             comm=self._comm)
         self._file_coeffs = file_coeffs
         self._coeffs_dir = coeffs_dir
@@ -406,7 +406,7 @@ class Base():
                 'Coeffs not computed; you need to run `compute_coeffs_op`.')
         else:
             file_recons, coeffs_dir = utils_pod.compute_reconstruction(\
-                coeffs_dir=self._coeffs_dir, coeffs=coeffs, time_idx=time_idx,
+                coeffs_dir=coeffs_dir, coeffs=coeffs, time_idx=time_idx,
                 comm=self._comm)
         self._file_recons = file_recons
         self._coeffs_dir = coeffs_dir
diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 3571e65..5384bd0 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -646,7 +646,7 @@ class Base():
         See method implementation in the spod.utils module.
         '''
         file_coeffs, coeffs_dir = utils_spod.compute_coeffs_op(\
-            data, results_dir=self._savedir_sim, modes_idx=modes_idx,
+            data, results_dir=results_dir, modes_idx=modes_idx,
             tol=tol, svd=svd, T_lb=T_lb, T_ub=T_ub, comm=self._comm)
         self._file_coeffs = file_coeffs
         self._coeffs_dir = coeffs_dir
@@ -662,7 +662,7 @@ class Base():
                 'Coeffs not computed; you need to run `compute_coeffs_op`.')
         else:
             file_recons, coeffs_dir = utils_spod.compute_reconstruction(\
-                coeffs_dir=self._coeffs_dir, time_idx=time_idx, comm=self._comm)
+                coeffs_dir=coeffs_dir, time_idx=time_idx, comm=self._comm)
         self._file_recons = file_recons
         self._coeffs_dir = coeffs_dir
         return file_recons, coeffs_dir
-- 
2.43.0


From e8c450683525d64ac8de143f8d162fabfcaf3772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:26 +0000
Subject: [PATCH 65/90] fix: a model fitted again kept the number of modes its
 first data allowed

---
 pyspod/pod/base.py  | 5 +++--
 pyspod/spod/base.py | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index c523c67..ee642b0 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -42,7 +42,8 @@ class Base():
         self._mean_type = params.get('mean_type', 'longtime')
         self._normalize_data = params.get('normalize_data', False)
         self._normalize_weights = params.get('normalize_weights', False)
-        self._n_modes_save = params.get('n_modes_save', 1e10)
+        self._n_modes_req = params.get('n_modes_save', 1e10)
+        self._n_modes_save = self._n_modes_req
         self._dtype = params.get('dtype', 'double')
         self._savedir = params.get('savedir', os.path.join(CWD,'pod_results'))
         self._savedir = os.path.join(CWD, self._savedir)
@@ -239,7 +240,7 @@ class Base():
             self._nt += d.shape[0]
 
         # there are as many modes as snapshots
-        self._n_modes_save = int(min(self._n_modes_save, self._nt))
+        self._n_modes_save = int(min(self._n_modes_req, self._nt))
 
         # # Determine whether data is real-valued or complex-valued-valued
         # # to decide on one- or two-sided spectrum from data
diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 5384bd0..adba7e9 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -77,7 +77,8 @@ class Base():
         # normalize data by variance if required
         self._normalize_data = params.get('normalize_data', False)
         # default is all (large number)
-        self._n_modes_save = params.get('n_modes_save', 1e10)
+        self._n_modes_req = params.get('n_modes_save', 1e10)
+        self._n_modes_save = self._n_modes_req
         # default datatype is double
         self._dtype = params.get('dtype', 'double')
         # where to save data
@@ -500,6 +501,7 @@ class Base():
         self._weights = self._set_dtype(self._weights)
 
         # set number of modes to save
+        self._n_modes_save = self._n_modes_req
         if self._n_modes_save > self._n_blocks:
             self._n_modes_save = self._n_blocks
 
-- 
2.43.0


From bbe1531768f87198978221651b4f45162226af40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:09 +0000
Subject: [PATCH 66/90] fix: get_data of xarray data of a single variable
 without variable axis raised TypeError

---
 pyspod/pod/base.py  | 2 +-
 pyspod/spod/base.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index ee642b0..193b2e7 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -494,7 +494,7 @@ class Base():
         '''
         if t_0 is None: t_0 = 0
         if t_end is None: t_end = data.shape[0]
-        d = data[t_0:t_end,...]
+        d = np.asarray(data[t_0:t_end,...])
         if self._nv == 1 and (d.ndim != self._xdim + 2):
             d = d[...,np.newaxis]
         return d
diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index adba7e9..8f2961d 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -832,7 +832,7 @@ class Base():
         '''
         if t_0 is None: t_0 = 0
         if t_end is None: t_end = data.shape[0]
-        d = data[t_0:t_end,...]
+        d = np.asarray(data[t_0:t_end,...])
         if self._nv == 1 and (d.ndim != self._xdim + 2):
             d = d[...,np.newaxis]
         return d
-- 
2.43.0


From 116e875b7362207fc874758d7cdc8a564eca4d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:03 +0000
Subject: [PATCH 67/90] fix: modes shifted by 180 degrees altered the caller's
 longitudes, or were shifted along the latitudes

---
 pyspod/utils/postproc.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index c8efd1a..ba0495e 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -401,7 +401,7 @@ def plot_2d_modes_at_frequency(results_path, freq_req,
     x2 = x2[limits_x2]
 
     if shift180:
-        x1 -= 180
+        x1 = x1 - 180
 
     ## loop over variables and modes
     for var_id in vars_idx:
@@ -419,9 +419,6 @@ def plot_2d_modes_at_frequency(results_path, freq_req,
             ## extract mode
             mode = np.squeeze(modes[:,:,var_id,mode_id])
 
-            if shift180:
-                mode = np.hstack((mode[:,mode.shape[1]//2:], mode[:,:mode.shape[1]//2]))
-
             ## check dimensions
             if mode.ndim != 2:
                 raise ValueError('Dimension of the modes is not 2D.')
@@ -434,6 +431,8 @@ def plot_2d_modes_at_frequency(results_path, freq_req,
             if x1_tmp.shape[0] != mode.shape[1] or \
                x2_tmp.shape[0] != mode.shape[0]:
                 mode = mode.T
+            if shift180:
+                mode = np.hstack((mode[:,mode.shape[1]//2:], mode[:,:mode.shape[1]//2]))
             mode = mode[limits_x2,limits_x1]
 
             # check dimension axes and data
@@ -525,8 +524,6 @@ def plot_2d_modes_at_frequency(results_path, freq_req,
                 basename, ext = splitext(filename)
                 tmp_name = f'{basename}_var{var_id}_mode{mode_id}{ext}'
             _save_show_plots(tmp_name, path, plt, pdf=pdf)
-    if shift180:
-        x1 += 180
 
 # def plot_2d_mode_slice_vs_time(results_path, freq_req, freq,
 #     vars_idx=[0], modes_idx=[0], x1=None, x2=None, max_each_mode=False,
-- 
2.43.0


From b9bc29168b43452c2ba2ab01567fc7367d114a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:03 +0000
Subject: [PATCH 68/90] fix: coefficients were shown all in the same figure

---
 pyspod/utils/postproc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index ba0495e..dcb0235 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -1031,9 +1031,9 @@ def plot_mode_tracers(
 def plot_coeffs(coeffs, coeffs_idx=[0], equal_axes=False,
     figsize=(12,8), path='CWD', filename=None):
 
-    # initialize figure
-    fig = plt.figure(figsize=figsize)
     for ci in coeffs_idx:
+        # initialize figure
+        fig = plt.figure(figsize=figsize)
         plt.plot(coeffs[ci,:], 'k-')
         plt.xlabel('time')
         plt.ylabel(f'coeff {ci}')
-- 
2.43.0


From 4907b66cb17a8590818df5e1e8c85d6d6997b065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:03 +0000
Subject: [PATCH 69/90] fix: data tracers failed for data shorter than the time
 limits (10 by default)

---
 pyspod/utils/postproc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index dcb0235..51d05ef 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -1182,8 +1182,8 @@ def plot_data_tracers(X, coords_list, x=None, time_limits=[0,10],
     # get idx variables
     vars_idx = _check_vars(vars_idx)
 
-    # time range
-    time_range = list(range(time_limits[0],time_limits[-1]))
+    # time range (available data)
+    time_range = list(range(time_limits[0],min(time_limits[-1],X.shape[0])))
 
     # get default coordinates if not provided
     xdim = X[0,...,0].shape
-- 
2.43.0


From a6400f913d0e41d4606c8344a3b677797749442f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:03 +0000
Subject: [PATCH 70/90] fix: mode tracers were drawn at five times their
 frequency

---
 pyspod/utils/postproc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 51d05ef..966b4b2 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -988,9 +988,9 @@ def plot_mode_tracers(
     # calculate period and time vector
     n_points = 100
     period = 1. / freq_req
-    t = np.linspace(0,period,n_points)
+    t = np.linspace(0,5*period,n_points)
 
-    # pre-compute auxiliary phase vector and shape it accordingly
+    # pre-compute auxiliary phase vector (five periods)
     phase = np.exp(complex(0,1) * np.linspace(0,10*np.pi,n_points))
 
     # loop over coordinates requested
-- 
2.43.0


From 656ad0b513d0706fa2dfc971bfa881849d8313b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:03 +0000
Subject: [PATCH 71/90] fix: slices of 3D modes were drawn against the
 coordinates of the sliced axis when sizes coincide

---
 pyspod/utils/postproc.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 966b4b2..c7c26fd 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -810,12 +810,19 @@ def plot_3d_modes_slice_at_frequency(
             if slice_dim == 0: mode = mode_3d[slice_id,:,:]
             elif slice_dim == 1: mode = mode_3d[:,slice_id,:]
             elif slice_dim == 2: mode = mode_3d[:,:,slice_id]
+            # coordinates of the axes that are not sliced
+            dims = [d for d in range(3) if d != slice_dim]
+            flags = [f'x{d+1}' for d in dims]
+            coords = [(x1,x2,x3)[d] for d in dims]
             # coord 1
-            if mode.shape[0] == x1.shape[0]: xx = x1; flag1 = 'x1'
+            if mode.shape == tuple(c.shape[0] for c in coords):
+                (xx, yy), (flag1, flag2) = coords, flags
+            elif mode.shape[0] == x1.shape[0]: xx = x1; flag1 = 'x1'
             elif mode.shape[0] == x2.shape[0]: xx = x2; flag1 = 'x2'
             elif mode.shape[0] == x3.shape[0]: xx = x3; flag1 = 'x3'
             # coord 2
-            if (mode.shape[1] == x1.shape[0]) and (flag1 != 'x1'):
+            if mode.shape == tuple(c.shape[0] for c in coords): pass
+            elif (mode.shape[1] == x1.shape[0]) and (flag1 != 'x1'):
                 yy = x1; flag2 = 'x1'
             elif (mode.shape[1] == x2.shape[0]) and (flag1 != 'x2'):
                 yy = x2; flag2 = 'x2'
-- 
2.43.0


From 05098f6c77e847e352d4c2817358a5c3c5469774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:03 +0000
Subject: [PATCH 72/90] fix: default slice of 3D modes is the one of the
 maximum, as documented

---
 pyspod/utils/postproc.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index c7c26fd..41c15c7 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -806,10 +806,13 @@ def plot_3d_modes_slice_at_frequency(
             if mode_3d.ndim != 3:
                 raise ValueError('Dimension of the modes is not 3D.')
 
-            if slice_id is None: slice_id = 0
-            if slice_dim == 0: mode = mode_3d[slice_id,:,:]
-            elif slice_dim == 1: mode = mode_3d[:,slice_id,:]
-            elif slice_dim == 2: mode = mode_3d[:,:,slice_id]
+            idx = slice_id
+            if idx is None:
+                idx_max = np.argmax(np.abs(mode_3d))
+                idx = np.unravel_index(idx_max, mode_3d.shape)[slice_dim]
+            if slice_dim == 0: mode = mode_3d[idx,:,:]
+            elif slice_dim == 1: mode = mode_3d[:,idx,:]
+            elif slice_dim == 2: mode = mode_3d[:,:,idx]
             # coordinates of the axes that are not sliced
             dims = [d for d in range(3) if d != slice_dim]
             flags = [f'x{d+1}' for d in dims]
-- 
2.43.0


From 01b3ed99c8ec4f8664098cfc1b1c2101a92f927e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:03 +0000
Subject: [PATCH 73/90] fix: plot_2d_data of a model took negative time indices
 as relative to the last time requested

---
 pyspod/spod/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 8f2961d..75f4c72 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -977,8 +977,8 @@ class Base():
         '''
         See method implementation in the postproc module.
         '''
-        max_time_idx = np.max(time_idx)
-        data = self.get_data(data, t_0=0, t_end=max_time_idx+1)
+        t_end = np.max(time_idx) + 1 if np.min(time_idx) >= 0 else None
+        data = self.get_data(data, t_0=0, t_end=t_end)
         post.plot_2d_data(
             X=data, time_idx=time_idx, vars_idx=vars_idx,
             x1=x1, x2=x2, title=title, coastlines=coastlines,
-- 
2.43.0


From 3f8208359e3005c3bde3d3b6965a4e4e13980fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:03 +0000
Subject: [PATCH 74/90] fix: video of data that does not start at the first
 time

---
 pyspod/spod/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 75f4c72..cb0381b 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -1103,7 +1103,7 @@ class Base():
         data = self.get_data(
             data, t_0=time_limits[0], t_end=time_limits[-1])
         post.generate_2d_data_video(
-            X=data, time_limits=[0,time_limits[-1]], vars_idx=vars_idx,
+            X=data, time_limits=[0,data.shape[0]], vars_idx=vars_idx,
             sampling=sampling, x1=x1, x2=x2, coastlines=coastlines,
             figsize=figsize, path=self.savedir_sim, filename=filename)
 
-- 
2.43.0


From b7b9fd8f3c29b5c089bb7e87fe5cc8e50ef95a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:53 +0000
Subject: [PATCH 75/90] fix: streaming SPOD fails when the divide-and-conquer
 SVD does not converge

---
 pyspod/spod/streaming.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index 1cbe6ae..8491cd7 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -5,6 +5,7 @@ import os
 import time
 import numpy as np
 from numpy import linalg as la
+from scipy.linalg import svd
 import pyspod.utils.parallel as utils_par
 from pyspod.spod.base import Base
 
@@ -201,7 +202,12 @@ class Streaming(Base):
                         K = np.sqrt((block_i+1) / (block_i+2)**2) * K
 
                         ## calculate partial svd
-                        Up, Sp, _ = la.svd(K, full_matrices=False)
+                        try:
+                            Up, Sp, _ = la.svd(K, full_matrices=False)
+                        except la.LinAlgError:
+                            ## divide and conquer may fail to converge
+                            Up, Sp, _ = svd(
+                                K, full_matrices=False, lapack_driver='gesvd')
                         del K
 
                         ## update U as in eqn. (33)
-- 
2.43.0


From 5d6452f6957edaa436f8892973d8bd949f2ee092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:48 +0000
Subject: [PATCH 76/90] fix: coefficients of data in single or half precision
 are computed with the precision asked for

---
 pyspod/pod/utils.py  | 5 ++++-
 pyspod/spod/utils.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyspod/pod/utils.py b/pyspod/pod/utils.py
index 7263023..4aef397 100644
--- a/pyspod/pod/utils.py
+++ b/pyspod/pod/utils.py
@@ -77,7 +77,10 @@ def compute_coeffs_op(data, results_dir, modes_idx=None,
     st = time.time()
 
     ## compute time mean and subtract from data (reuse the one from fit?)
-    lt_mean = np.mean(data, axis=0); data = data - lt_mean
+    lt_mean = np.mean(data, axis=0,
+        dtype=np.result_type(data.dtype, np.float64))
+    data = _set_dtype(data - lt_mean, dtype)
+    lt_mean = _set_dtype(lt_mean, dtype)
     utils_par.pr0(f'- data and time mean: {time.time() - st} s.', comm)
     st = time.time()
 
diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index 1e18ed8..88f33fe 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -158,7 +158,10 @@ def compute_coeffs_op(
     weights = np.reshape(weights, [xsize, 1])
 
     ## compute time mean and subtract from data (reuse the one from fit?)
-    lt_mean = np.mean(data, axis=0); data = data - lt_mean
+    lt_mean = np.mean(data, axis=0,
+        dtype=np.result_type(data.dtype, np.float64))
+    data = _set_dtype(data - lt_mean, dtype)
+    lt_mean = _set_dtype(lt_mean, dtype)
     utils_par.pr0(f'- data and time mean: {time.time() - st} s.', comm)
     st = time.time()
 
-- 
2.43.0


From b9049fbacbd354a24682c80a47fc420a14cd079d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:05 +0000
Subject: [PATCH 77/90] fix: error norms of integer data wrapped around
 (differences were taken in the type of the data)

---
 pyspod/utils/errors.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyspod/utils/errors.py b/pyspod/utils/errors.py
index 460887b..fcc0161 100644
--- a/pyspod/utils/errors.py
+++ b/pyspod/utils/errors.py
@@ -14,6 +14,9 @@ def compute_l_errors(data, data_ref, norm_type='l2'):
     :return: the computed error.
     :rtype: numpy.ndarray
     '''
+    ## (differences may leave the range of an integer type)
+    data = _to_double(data)
+    data_ref = _to_double(data_ref)
     n = data.size
     e = np.abs(data - data_ref)
     ef = e.flatten('C')
@@ -43,6 +46,8 @@ def compute_h_errors(data, data_ref, dt, norm_type='h1'):
     '''
     # warnings.warn("warning: for h1 calculation, dim0 must be time.")
     if norm_type == 'h1':
+        data = _to_double(data)
+        data_ref = _to_double(data_ref)
         err_h1 = 0
         for i in range(data.shape[0]):
             if i == 0:
@@ -57,3 +62,8 @@ def compute_h_errors(data, data_ref, dt, norm_type='h1'):
     else:
         raise ValueError(norm_type, ' not implemented.')
     return error_norm
+
+
+def _to_double(data):
+    data = np.asarray(data)
+    return data.astype(np.result_type(data.dtype, np.float64), copy=False)
-- 
2.43.0


From 2b5a73302c75088aaff3a16037f8dc686b449bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:51 +0000
Subject: [PATCH 78/90] fix: streaming SPOD took the square root of
 single-precision weights in single precision when double was asked for

---
 pyspod/spod/streaming.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index 8491cd7..0d3e4d7 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -39,7 +39,7 @@ class Streaming(Base):
         self._initialize(data_list, streaming = True)
 
         ## sqrt of weights
-        sqrt_w = np.sqrt(self._weights)
+        sqrt_w = np.sqrt(self._weights.astype(self._float))
 
         ## separation between adjacent blocks
         dn = self._n_dft - self._n_overlap
-- 
2.43.0


From 884910b8b26f01ddeeebaffd67c65e47bae804bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:31 +0000
Subject: [PATCH 79/90] fix: data constant over a block were divided by their
 round-off variance in single precision

---
 pyspod/spod/standard.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index 1b95142..99b29c8 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -180,7 +180,9 @@ class Standard(Base):
         # normalize by pointwise variance
         if self._normalize_data:
             den = self._n_dft - 1
-            Q_var = np.sum(np.abs(Q_blk - np.mean(Q_blk, axis=0))**2, axis=0) / den
+            Q_dev = Q_blk - np.mean(Q_blk, axis=0,
+                dtype=np.result_type(Q_blk.dtype, np.float64))
+            Q_var = np.sum(np.abs(Q_dev)**2, axis=0) / den
             # address division-by-0 problem with NaNs
             Q_var[Q_var < 4 * np.finfo(float).eps] = 1
             Q_blk /= Q_var
-- 
2.43.0


From b01dadb4ba30af50354aac5d543d4b757bff5aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:31 +0000
Subject: [PATCH 80/90] fix: imaginary part of complex data read from MATLAB
 files was dropped

---
 pyspod/utils/reader.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index 730cadc..14e07fd 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -14,6 +14,13 @@ except:
 import h5py
 
 
+def _mpi_dtype(dtype):
+    '''MPI data type of the values read.'''
+    return {
+        'f': MPI.FLOAT, 'F': MPI.C_FLOAT_COMPLEX,
+        'd': MPI.DOUBLE, 'D': MPI.C_DOUBLE_COMPLEX}[np.dtype(dtype).char]
+
+
 ########################################################################################
 # 1-stage reader
 ########################################################################################
@@ -218,6 +225,7 @@ class reader_2stage():
 
         self._shape     = comm.bcast(self._shape,     root=0)
         self._is_real   = comm.bcast(self._is_real,   root=0)
+        if not self._is_real: self._dtype = np.result_type(self._dtype, np.complex64)
         self._file_time = comm.bcast(self._file_time, root=0)
 
         if comm.rank == 0:
@@ -245,7 +253,7 @@ class reader_2stage():
         mpi_rank = comm.rank
         mpi_size = comm.size
 
-        mpi_dtype = MPI.FLOAT if self._dtype==np.float32 else MPI.DOUBLE
+        mpi_dtype = _mpi_dtype(self._dtype)
         n_all_xyz = np.prod(self._shape[1:-1]) # product of spatial dimensions
 
         # first distribute by the time dimension to maximize contiguous reads and minimize the number of readers per file
@@ -511,6 +519,7 @@ class reader_mat():
 
         self._shape     = comm.bcast(self._shape,    root=0)
         self._is_real   = comm.bcast(self._is_real,  root=0)
+        if not self._is_real: self._dtype = np.result_type(self._dtype, np.complex64)
         self._max_axes  = np.array([1,0]) # time is the first dimension (not listed), then nvar, then the spatial dimension
 
         nchunks = 0
@@ -540,7 +549,7 @@ class reader_mat():
         mpi_rank = comm.rank
         mpi_size = comm.size
 
-        mpi_dtype = MPI.FLOAT if self._dtype==np.float32 else MPI.DOUBLE
+        mpi_dtype = _mpi_dtype(self._dtype)
         n_all_xyz = np.prod(self._shape[1:-1]) # product of spatial dimensions
 
         # fist distribute by the time dimension to maximize contiguous reads and minimize the number of readers per file
-- 
2.43.0


From b50819b7aa7f0f29f113d2b84f788a326a621463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:49 +0000
Subject: [PATCH 81/90] fix: modes of a previous fit in the same folder were
 taken for those of the last fit

---
 pyspod/spod/base.py      | 10 ++++++++++
 pyspod/spod/standard.py  |  4 ++++
 pyspod/spod/streaming.py |  1 +
 3 files changed, 15 insertions(+)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index cb0381b..f6de0c4 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -8,6 +8,7 @@ from __future__ import division
 import os
 import gc
 import sys
+import glob
 import time
 import yaml
 import psutil
@@ -670,6 +671,15 @@ class Base():
         return file_recons, coeffs_dir
 
 
+    def _clear_modes(self):
+        '''Remove the modes a previous fit left in the results folder.'''
+        if self._rank == 0:
+            for f in glob.glob(os.path.join(
+                glob.escape(self._modes_dir), 'freq_idx_*.npy')):
+                os.remove(f)
+        utils_par.barrier(self._comm)
+
+
     def _store_and_save(self):
         '''Store and save results.'''
         self._params['n_freq'] = int(self._n_freq)
diff --git a/pyspod/spod/standard.py b/pyspod/spod/standard.py
index 99b29c8..7a5903e 100644
--- a/pyspod/spod/standard.py
+++ b/pyspod/spod/standard.py
@@ -238,6 +238,10 @@ class Standard(Base):
         L_diag_inv = np.zeros_like(L_diag)
         np.divide(1., L_diag, out=L_diag_inv, where=L>L_tol)
 
+        ## modes of a previous fit must not be taken for those of this one
+        if self._savefreq_disk or self._savefreq_disk2:
+            self._clear_modes()
+
         if not self._savefreq_disk2:
             for f in range(0,self._n_freq):
                 s0 = time.time()
diff --git a/pyspod/spod/streaming.py b/pyspod/spod/streaming.py
index 0d3e4d7..c2457f6 100644
--- a/pyspod/spod/streaming.py
+++ b/pyspod/spod/streaming.py
@@ -247,6 +247,7 @@ class Streaming(Base):
         phi = np.einsum('ijk->jik', phi)
 
         ## save modes
+        self._clear_modes()
         for f in range(0,n_freq):
             filename = f'freq_idx_{f:08d}.npy'
             path_modes = os.path.join(self._modes_dir, filename)
-- 
2.43.0


From 14ea50fd467b34a15b24b76576781da54cf65b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:49 +0000
Subject: [PATCH 82/90] fix: modes were not found in a folder whose name has
 glob characters

---
 pyspod/utils/postproc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 41c15c7..ecdf6e8 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -106,7 +106,8 @@ def get_modes_at_freq(results_path, freq_idx):
         m = get_data_from_file(filename)
     else:
         tmp_str = f'freq_idx_f{freq_idx:08d}_m*.npy'
-        filename = os.path.join(results_path, 'modes', tmp_str)
+        filename = os.path.join(
+            glob.escape(results_path), 'modes', tmp_str)
         modes = sorted(glob.glob(os.path.join(filename)))
         nmodes = len(modes)
 
@@ -132,7 +133,8 @@ def get_all_modes(results_path):
     if isinstance(results_path, str):
         modes_path = os.path.join(results_path, 'modes')
         # files are freq_idx_<freq>.npy, or freq_idx_f<freq>_m<mode>.npy
-        flist = glob.glob(os.path.join(modes_path, 'freq_idx_*.npy'))
+        flist = glob.glob(
+            os.path.join(glob.escape(modes_path), 'freq_idx_*.npy'))
         freqs = {os.path.basename(f).split('_')[2] for f in flist}
         freqs = sorted({int(splitext(f)[0].lstrip('f')) for f in freqs})
         m = np.stack([get_modes_at_freq(results_path, f) for f in freqs])
-- 
2.43.0


From a54e4ecb0c88e7f7899b73ceefeccc374bcfaf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:00 +0000
Subject: [PATCH 83/90] fix: parameters and mode indices given as numpy scalars
 or arrays made the stored parameters unreadable

---
 pyspod/pod/base.py   |  4 +++-
 pyspod/pod/utils.py  |  4 +++-
 pyspod/spod/base.py  |  3 ++-
 pyspod/spod/utils.py |  7 +++++--
 pyspod/utils/io.py   | 22 ++++++++++++++++++++++
 5 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index 193b2e7..96481c9 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -14,6 +14,7 @@ import numpy as np
 import scipy as scipy
 import pyspod.pod.utils      as utils_pod
 import pyspod.utils.parallel as utils_par
+import pyspod.utils.io       as utils_io
 import pyspod.utils.weights  as utils_weights
 CWD = os.getcwd()
 CF = os.path.realpath(__file__)
@@ -433,7 +434,8 @@ class Base():
         # save params; eigs and freq
         if self._rank == 0:
             ## save dictionaries of modes and params
-            with open(path_params, 'w') as f: yaml.dump(self._params, f)
+            with open(path_params, 'w') as f:
+                yaml.dump(utils_io.plain(self._params), f)
             ## save eigs
             np.savez(path_eigs, eigs=self._eigs)
             print(f'Weights saved in: {path_weights}')
diff --git a/pyspod/pod/utils.py b/pyspod/pod/utils.py
index 4aef397..b033ee9 100644
--- a/pyspod/pod/utils.py
+++ b/pyspod/pod/utils.py
@@ -9,6 +9,7 @@ import warnings
 import numpy as np
 
 # Import custom Python packages
+import pyspod.utils.io as utils_io
 import pyspod.utils.parallel as utils_par
 import pyspod.utils.postproc as post
 CWD = os.getcwd()
@@ -124,7 +125,8 @@ def compute_coeffs_op(data, results_dir, modes_idx=None,
     params['modes_idx'  ] = modes_idx
     params['max_axis' ] = int(max_axis)
     path_params_coeffs = os.path.join(coeffs_dir, 'params_coeffs.yaml')
-    with open(path_params_coeffs, 'w') as f: yaml.dump(params, f)
+    with open(path_params_coeffs, 'w') as f:
+        yaml.dump(utils_io.plain(params), f)
     utils_par.pr0(f'- saving completed: {time.time() - st} s.', comm)
     utils_par.pr0(f'---------------------------------------'  , comm)
     utils_par.pr0(f'Coefficients saved in: {file_coeffs}'     , comm)
diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index f6de0c4..9049776 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -708,7 +708,8 @@ class Base():
         # save params; eigs and freq
         if self._rank == 0:
             ## save dictionaries of modes and params
-            with open(path_params, 'w') as f: yaml.dump(self._params, f)
+            with open(path_params, 'w') as f:
+                yaml.dump(utils_io.plain(self._params), f)
             ## save eigs and freq
             if hasattr(self, '_eigs_c'):
                 self._eigs_c_l = self._eigs_c[:,:,0]
diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index 88f33fe..fbf6064 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -11,6 +11,7 @@ import numpy as np
 import scipy.io.matlab as siom
 
 # Import custom Python packages
+import pyspod.utils.io as utils_io
 import pyspod.utils.parallel as utils_par
 import pyspod.utils.postproc as post
 CWD = os.getcwd()
@@ -221,7 +222,8 @@ def compute_coeffs_op(
     params['freq_idx_ub'] = int(f_idx_ub)
     params['max_axis' ] = int(max_axis)
     path_params_coeffs = os.path.join(coeffs_dir, 'params_coeffs.yaml')
-    with open(path_params_coeffs, 'w') as f: yaml.dump(params, f)
+    with open(path_params_coeffs, 'w') as f:
+        yaml.dump(utils_io.plain(params), f)
     utils_par.pr0(f'- saving completed: {time.time() - st} s.'  , comm)
     utils_par.pr0(f'-----------------------------------------'  , comm)
     utils_par.pr0(f'Coefficients saved in folder: {file_coeffs}', comm)
@@ -448,7 +450,8 @@ def compute_coeffs_conv(
     params['freq_idx_ub'] = int(f_idx_ub)
     params['max_axis' ] = int(max_axis)
     path_params_coeffs = os.path.join(coeffs_dir, 'params_coeffs.yaml')
-    with open(path_params_coeffs, 'w') as f: yaml.dump(params, f)
+    with open(path_params_coeffs, 'w') as f:
+        yaml.dump(utils_io.plain(params), f)
     utils_par.pr0(f'- saving completed: {time.time() - st} s.'  , comm)
     utils_par.pr0(f'-----------------------------------------'  , comm)
     utils_par.pr0(f'Coefficients saved in folder: {file_coeffs}', comm)
diff --git a/pyspod/utils/io.py b/pyspod/utils/io.py
index b8a200b..d093b07 100644
--- a/pyspod/utils/io.py
+++ b/pyspod/utils/io.py
@@ -40,6 +40,28 @@ def read_data(data_file, format=None, comm=None):
     return d
 
 
+def plain(value):
+    '''
+    Convert parameters into what can be stored in (and loaded from) yaml
+    files: numpy scalars and arrays, ranges and paths into plain Python types.
+
+    :param value: parameters, or value of a parameter.
+
+    :return: the same parameters with plain Python types.
+    '''
+    if isinstance(value, dict):
+        return {k: plain(v) for k, v in value.items()}
+    if isinstance(value, (list, range)):
+        return [plain(v) for v in value]
+    if isinstance(value, tuple):
+        return tuple(plain(v) for v in value)
+    if isinstance(value, (np.generic, np.ndarray)):
+        return value.tolist()
+    if isinstance(value, os.PathLike):
+        return os.fspath(value)
+    return value
+
+
 def read_config(parsed_file=None):
     '''
     Parse command line for a config file.
-- 
2.43.0


From 19245ea2ecab1b013e8bba5bc8e58fbc7e35ae74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:50 +0000
Subject: [PATCH 84/90] fix: weights passed as an array are used, not replaced
 by uniform weights

---
 pyspod/pod/base.py  | 10 +++++++---
 pyspod/spod/base.py | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index 96481c9..0cb77d6 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -328,9 +328,13 @@ class Base():
     def define_weights(self):
         '''Define and check weights.'''
         self._pr0('- checking weight dimensions')
-        if isinstance(self._weights_tmp, dict):
-            self._weights = self._weights_tmp['weights']
-            self._weights_name = self._weights_tmp['weights_name']
+        weights = self._weights_tmp
+        ## weights may be provided as an array, without a name
+        if isinstance(weights, np.ndarray):
+            weights = {'weights': weights, 'weights_name': 'custom'}
+        if isinstance(weights, dict):
+            self._weights = weights['weights']
+            self._weights_name = weights['weights_name']
             if np.size(self._weights) != int(self.nx * self.nv):
                 raise ValueError(
                     'parameter ``weights`` must have the '
diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 9049776..ca7dcad 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -560,9 +560,13 @@ class Base():
     def define_weights(self):
         '''Define and check weights.'''
         self._pr0('- checking weight dimensions')
-        if isinstance(self._weights_tmp, dict):
-            self._weights = self._weights_tmp['weights']
-            self._weights_name = self._weights_tmp['weights_name']
+        weights = self._weights_tmp
+        ## weights may be provided as an array, without a name
+        if isinstance(weights, np.ndarray):
+            weights = {'weights': weights, 'weights_name': 'custom'}
+        if isinstance(weights, dict):
+            self._weights = weights['weights']
+            self._weights_name = weights['weights_name']
             if np.size(self._weights) != int(self.nx * self.nv):
                 raise ValueError(
                     'parameter ``weights``', np.size(self._weights),
-- 
2.43.0


From 04eccf860f71f4f44b52c64bd1c65b69283a4b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:50 +0000
Subject: [PATCH 85/90] fix: file_dynamics returns the path of the
 reconstruction

---
 pyspod/spod/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index ca7dcad..1e29927 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -169,7 +169,7 @@ class Base():
         :return: path to file where reconstruction is saved.
         :rtype: str
         '''
-        return self._file_dynamics
+        return self._file_recons
 
     @property
     def dim(self):
-- 
2.43.0


From 53382f4bd38f723f808b6b645cc54845397e736c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:41 +0000
Subject: [PATCH 86/90] fix: complex data in MATLAB's own format could not be
 read, or lost the imaginary part when the first file is real

---
 pyspod/utils/reader.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pyspod/utils/reader.py b/pyspod/utils/reader.py
index 14e07fd..e7c81b7 100644
--- a/pyspod/utils/reader.py
+++ b/pyspod/utils/reader.py
@@ -21,6 +21,14 @@ def _mpi_dtype(dtype):
         'd': MPI.DOUBLE, 'D': MPI.C_DOUBLE_COMPLEX}[np.dtype(dtype).char]
 
 
+def _mat_values(data):
+    '''Values of a MATLAB data set (complex ones are stored as pairs).'''
+    data = np.array(data)
+    if data.dtype.names:
+        data = data[data.dtype.names[0]] + 1j * data[data.dtype.names[1]]
+    return data
+
+
 ########################################################################################
 # 1-stage reader
 ########################################################################################
@@ -507,13 +515,17 @@ class reader_mat():
                 #print(f'file {f} exists')
                 self._files_size += os.path.getsize(f)/1024/1024/1024 # GB
 
+                # complex-valued data are stored as real ones in the files
+                # where the imaginary part is zero: check all of them
+                with h5py.File(f, "r") as ff:
+                    if ff[list(ff.keys())[0]].dtype.kind not in 'fiu':
+                        self._is_real = False
+
 
             # check the first file to find dimensions
             f = h5py.File(data_list[0], "r")
             group_key = list(f.keys())[0]
             data = f.get(group_key)
-            if data.dtype.kind not in 'fiu':
-                self._is_real = False
 
             self._shape = (nt, data.shape[1], data.shape[2], data.shape[3], data.shape[0])
 
@@ -577,7 +589,7 @@ class reader_mat():
                 with h5py.File(f, "r") as ff:
                     group_key = list(ff.keys())[0]
                     data = ff.get(group_key)
-                    data = np.array(data)
+                    data = _mat_values(data)
                     data = np.transpose(data, axes=[1, 2, 3, 0])
 
                     assert np.isfinite(data).all(), f'non-finite data in {f}'
-- 
2.43.0


From 0b2d1a03b97692918457ec7714a27f3bdc4e0275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:04 +0000
Subject: [PATCH 87/90] fix: axes limits cut off part of a plot whose
 coordinates are all positive or all negative

---
 pyspod/utils/postproc.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index ecdf6e8..1c17ecd 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -875,10 +875,10 @@ def plot_3d_modes_slice_at_frequency(
                 imag_ax = _apply_2d_coastlines(coastlines, imag_ax)
 
                 # axis management
-                real_ax.set_xlim(np.nanmin(xx)*1.05,np.nanmax(xx)*1.05)
-                real_ax.set_ylim(np.nanmin(yy)*1.05,np.nanmax(yy)*1.05)
-                imag_ax.set_xlim(np.nanmin(xx)*1.05,np.nanmax(xx)*1.05)
-                imag_ax.set_ylim(np.nanmin(yy)*1.05,np.nanmax(yy)*1.05)
+                real_ax.set_xlim(*_padded_limits(xx))
+                real_ax.set_ylim(*_padded_limits(yy))
+                imag_ax.set_xlim(*_padded_limits(xx))
+                imag_ax.set_ylim(*_padded_limits(yy))
                 real_ax, xticks, yticks = _format_axes(real_ax, xticks, yticks)
                 imag_ax, xticks, yticks = _format_axes(imag_ax, xticks, yticks)
                 if equal_axes:
@@ -917,8 +917,8 @@ def plot_3d_modes_slice_at_frequency(
                 if equal_axes:
                     real_ax.set_aspect('equal')
                 real_ax, xticks, yticks = _format_axes(real_ax, xticks, yticks)
-                real_ax.set_xlim(np.nanmin(xx)*1.05,np.nanmax(xx)*1.05)
-                real_ax.set_ylim(np.nanmin(yy)*1.05,np.nanmax(yy)*1.05)
+                real_ax.set_xlim(*_padded_limits(xx))
+                real_ax.set_ylim(*_padded_limits(yy))
                 real_ax.set_xlabel(flag1)
                 real_ax.set_ylabel(flag2)
                 if len(title) > 1:
@@ -1501,10 +1501,15 @@ def _save_show_plots(filename, path, plt, pdf = None):
         plt.show()
 
 def _set_2d_axes_limits(ax, x1, x2):
-    ax.set_xlim(np.nanmin(x1)*1.05,np.nanmax(x1)*1.05)
-    ax.set_ylim(np.nanmin(x2)*1.05,np.nanmax(x2)*1.05)
+    ax.set_xlim(*_padded_limits(x1))
+    ax.set_ylim(*_padded_limits(x2))
     return ax
 
+def _padded_limits(x):
+    # 5% outwards, whatever the sign of the smallest and largest coordinate
+    xmin, xmax = np.nanmin(x), np.nanmax(x)
+    return xmin - 0.05 * abs(xmin), xmax + 0.05 * abs(xmax)
+
 def _apply_2d_coastlines(coastlines, ax):
     # overlay coastlines if required
     if coastlines.lower() == 'regular':
-- 
2.43.0


From 4a4245d4bf2e723259f4fc7706500f1a174d2a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:04 +0000
Subject: [PATCH 88/90] fix: a 2D data video stops at the last snapshot, as
 tracers do

---
 pyspod/utils/postproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 1c17ecd..9aa182e 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -1393,7 +1393,7 @@ def generate_2d_data_video(X, time_limits=[0,10], vars_idx=[0],
         x2 = np.arange(X.shape[2])
 
     # time range
-    time_range = list(range(time_limits[0],time_limits[-1]))
+    time_range = list(range(time_limits[0],min(time_limits[-1],X.shape[0])))
     time_range = time_range[0::sampling]
 
     # check dimension axes and data
-- 
2.43.0


From a3911b55d1ae26eb5440bcd61dc40b03fd90d41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:52 +0000
Subject: [PATCH 89/90] fix: tracers of fft-shifted one-dimensional modes

---
 pyspod/utils/postproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index 9aa182e..a0266c3 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -1019,7 +1019,7 @@ def plot_mode_tracers(
             for mode_id in modes_idx:
                 mode = modes[...,var_id,mode_id]
                 if fftshift:
-                    mode = np.fft.fftshift(mode, axes=1)
+                    mode = np.fft.fftshift(mode, axes=min(1, mode.ndim-1))
                 mode_point_phase = mode[idx_coords] * phase.conj()
                 ax = fig.add_subplot(spec[cnt,0])
                 _ = ax.plot(t, np.real(mode_point_phase), 'k-')
-- 
2.43.0


From d331ecbaefbebdbcb79a004480eb1abe833daab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:23 +0000
Subject: [PATCH 90/90] fix: relative paths are relative to the current
 directory, not to the one of the import

---
 pyspod/emulation/base.py | 2 +-
 pyspod/pod/base.py       | 6 +++---
 pyspod/pod/utils.py      | 2 +-
 pyspod/spod/base.py      | 4 ++--
 pyspod/spod/utils.py     | 4 ++--
 pyspod/utils/postproc.py | 4 ++--
 6 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/pyspod/emulation/base.py b/pyspod/emulation/base.py
index 4aadc0d..2bb31ad 100644
--- a/pyspod/emulation/base.py
+++ b/pyspod/emulation/base.py
@@ -25,7 +25,7 @@ class Base():
     def __init__(self, params):
         self._data_type = params['data_type']
         self._normalization = params.get('normalization', 'localmax')
-        self._savedir  = params.get('savedir', os.path.join(CWD,'results'))
+        self._savedir  = params.get('savedir', os.path.join(os.getcwd(), 'results'))
 
 
     def scaler(self, data):
diff --git a/pyspod/pod/base.py b/pyspod/pod/base.py
index 0cb77d6..beb52fa 100644
--- a/pyspod/pod/base.py
+++ b/pyspod/pod/base.py
@@ -39,15 +39,15 @@ class Base():
         self._nv   = params['n_variables' ]
 
         # store optional parameters in class
-        saveto = os.path.join(CWD, 'pod_results')
+        saveto = os.path.join(os.getcwd(), 'pod_results')
         self._mean_type = params.get('mean_type', 'longtime')
         self._normalize_data = params.get('normalize_data', False)
         self._normalize_weights = params.get('normalize_weights', False)
         self._n_modes_req = params.get('n_modes_save', 1e10)
         self._n_modes_save = self._n_modes_req
         self._dtype = params.get('dtype', 'double')
-        self._savedir = params.get('savedir', os.path.join(CWD,'pod_results'))
-        self._savedir = os.path.join(CWD, self._savedir)
+        self._savedir = params.get('savedir', os.path.join(os.getcwd(), 'pod_results'))
+        self._savedir = os.path.join(os.getcwd(), self._savedir)
         params['savedir'] = self._savedir
 
         ## parse other inputs
diff --git a/pyspod/pod/utils.py b/pyspod/pod/utils.py
index b033ee9..b4b9499 100644
--- a/pyspod/pod/utils.py
+++ b/pyspod/pod/utils.py
@@ -154,7 +154,7 @@ def compute_reconstruction(
     dt_float, dt_complex = _get_dtype(dtype)
 
     ## load required files
-    coeffs_dir = os.path.join(CWD, coeffs_dir)
+    coeffs_dir = os.path.join(os.getcwd(), coeffs_dir)
     file_lt_mean = os.path.join(coeffs_dir, 'ltm.npy')
     file_phir    = os.path.join(coeffs_dir, 'modes_r.npy')
     file_params  = os.path.join(coeffs_dir, 'params_coeffs.yaml')
diff --git a/pyspod/spod/base.py b/pyspod/spod/base.py
index 1e29927..980d30d 100644
--- a/pyspod/spod/base.py
+++ b/pyspod/spod/base.py
@@ -83,8 +83,8 @@ class Base():
         # default datatype is double
         self._dtype = params.get('dtype', 'double')
         # where to save data
-        self._savedir = params.get('savedir', os.path.join(CWD,'spod_results'))
-        self._savedir = os.path.join(CWD, self._savedir)
+        self._savedir = params.get('savedir', os.path.join(os.getcwd(), 'spod_results'))
+        self._savedir = os.path.join(os.getcwd(), self._savedir)
         params['savedir'] = self._savedir
 
         ## parse other inputs
diff --git a/pyspod/spod/utils.py b/pyspod/spod/utils.py
index fbf6064..af6a462 100644
--- a/pyspod/spod/utils.py
+++ b/pyspod/spod/utils.py
@@ -489,7 +489,7 @@ def compute_reconstruction(
     dt_float, dt_complex = _get_dtype(dtype)
 
     ## load required files
-    coeffs_dir = os.path.join(CWD, coeffs_dir)
+    coeffs_dir = os.path.join(os.getcwd(), coeffs_dir)
     file_lt_mean = os.path.join(coeffs_dir, 'ltm.npy')
     file_phir    = os.path.join(coeffs_dir, 'modes_r.npy')
     file_params  = os.path.join(coeffs_dir, 'params_coeffs.yaml')
@@ -705,7 +705,7 @@ def _configure_parallel(comm):
 
 def _get_required_data(results_dir):
     ## load required files
-    results_dir = os.path.join(CWD, results_dir)
+    results_dir = os.path.join(os.getcwd(), results_dir)
     file_eigs_freq = os.path.join(results_dir, 'eigs_freq.npz')
     file_weights   = os.path.join(results_dir, 'weights.npy')
     file_params    = os.path.join(results_dir, 'params_modes.yaml')
diff --git a/pyspod/utils/postproc.py b/pyspod/utils/postproc.py
index a0266c3..2b0ff69 100644
--- a/pyspod/utils/postproc.py
+++ b/pyspod/utils/postproc.py
@@ -1459,7 +1459,7 @@ def generate_2d_data_video(X, time_limits=[0,10], vars_idx=[0],
                 ]
         a = animation.ArtistAnimation(
             fig, frames, interval=70, blit=False, repeat=False)
-        if path == 'CWD': path = CWD
+        if path == 'CWD': path = os.getcwd()
         tmp_name = f'{basename}_var{i}{ext}'
         Writer = animation.writers['ffmpeg']
         writer = Writer(fps=15, metadata=dict(artist='Me'), bitrate=1800)
@@ -1494,7 +1494,7 @@ def _save_show_plots(filename, path, plt, pdf = None):
     if pdf:
         pdf.savefig()
     elif filename:
-        if path == 'CWD': path = CWD
+        if path == 'CWD': path = os.getcwd()
         plt.savefig(os.path.join(path,filename), dpi=200)
         plt.close()
     else:
-- 
2.43.0

