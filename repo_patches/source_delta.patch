From b4fcaff19da2d9a473284ea6b4a2122ebe5e2e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:57 +0000
Subject: [PATCH 01/20] fix: inv_mod_p accepts every residue, including
 negative representatives

---
 src/permaviss/gauss_mod_p/arithmetic_mod_p.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/permaviss/gauss_mod_p/arithmetic_mod_p.py b/src/permaviss/gauss_mod_p/arithmetic_mod_p.py
index 9492425..04bc643 100644
--- a/src/permaviss/gauss_mod_p/arithmetic_mod_p.py
+++ b/src/permaviss/gauss_mod_p/arithmetic_mod_p.py
@@ -73,7 +73,7 @@ def inv_mod_p(a, p):
 
     x0, x1 = 0, 1
     y0, y1 = 1, 0
-    b = p
+    a, b = a % p, p
     while a != 0:
         q, b, a = b // a, a, b % a
         y0, y1 = y1, y0 - q * y1
-- 
2.43.0


From 65efc040010c80540d88d0a6438284b46b62d37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:57 +0000
Subject: [PATCH 02/20] fix: image_kernel must not revive the death radius of
 an image bar that already died

---
 src/permaviss/persistence_algebra/image_kernel.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/permaviss/persistence_algebra/image_kernel.py b/src/permaviss/persistence_algebra/image_kernel.py
index 5e27f46..a6bb42d 100644
--- a/src/permaviss/persistence_algebra/image_kernel.py
+++ b/src/permaviss/persistence_algebra/image_kernel.py
@@ -178,7 +178,6 @@ def image_kernel(A, B, F, p, start_index=0, prev_basis=None):
                         pivots_Ker[:col_idx], p)
                     if pivots_Ker[col_idx] != -1:
                         new_pivots.append(pivots_Ker[col_idx])
-                        Im_barcode[pivots_Ker[col_idx], 1] = rad
                         cycle_coord = Ker_coordinates[:, col_idx]
                         new_coord_Im = multiply_mod_p(
                             F[:, active_A],
-- 
2.43.0


From a47392b41d3a257e491f4a429a2b0ad8067ec429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:57 +0000
Subject: [PATCH 03/20] fix: image_kernel preimages drop entries of generators
 that are no longer active

---
 src/permaviss/persistence_algebra/image_kernel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/permaviss/persistence_algebra/image_kernel.py b/src/permaviss/persistence_algebra/image_kernel.py
index a6bb42d..6b7e022 100644
--- a/src/permaviss/persistence_algebra/image_kernel.py
+++ b/src/permaviss/persistence_algebra/image_kernel.py
@@ -189,6 +189,7 @@ def image_kernel(A, B, F, p, start_index=0, prev_basis=None):
                                 :, pivots_Ker[col_idx]] = new_coord_Im
                             Im_barcode[pivots_Ker[col_idx], 1] = rad
                             pivots_Im[pivots_Ker[col_idx]] = int(-1)
+                            T[:, pivots_Ker[col_idx]] = 0
                             T[:, pivots_Ker[col_idx]][
                                 active_A] = cycle_coord[active_A]
                         # end if else
-- 
2.43.0


From 340bf3534487fa4a6f97750ceea980a4d898ee4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:57 +0000
Subject: [PATCH 04/20] fix: pivot_check_reduce cancels a pivot in one step for
 every prime

---
 src/permaviss/persistence_algebra/image_kernel.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/permaviss/persistence_algebra/image_kernel.py b/src/permaviss/persistence_algebra/image_kernel.py
index 6b7e022..3f5dae4 100644
--- a/src/permaviss/persistence_algebra/image_kernel.py
+++ b/src/permaviss/persistence_algebra/image_kernel.py
@@ -275,13 +275,13 @@ def pivot_check_reduce(M, active_rows, col_idx, pivots_prev, p, T=None):
         new_pivot = int(active_rows[new_pivot])
         if (new_pivot != -1) and (new_pivot in pivots_prev):
             prev_idx = list(pivots_prev).index(new_pivot)
+            q = (-M[new_pivot, col_idx] * inv_mod_p(
+                M[new_pivot, prev_idx], p)) % p
             M[:, col_idx] = add_mod_c(
-                inv_mod_p(M[new_pivot, prev_idx], p) * M[:, prev_idx],
-                M[:, col_idx], p)
+                q * M[:, prev_idx], M[:, col_idx], p)
             if np.any(T):
                 T[:, col_idx] = add_mod_c(
-                    inv_mod_p(M[new_pivot, prev_idx], p) * T[:, prev_idx],
-                    T[:, col_idx], p)
+                    q * T[:, prev_idx], T[:, col_idx], p)
             # end if not None
             new_pivot = pivot_check_reduce(
                 M, active_rows, col_idx, pivots_prev, p, T)
-- 
2.43.0


From a95054b4078d8a145dd91b1ef236b5be636100d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:43 +0000
Subject: [PATCH 05/20] fix: a relative image class vanishes when its own
 generator dies

---
 src/permaviss/persistence_algebra/image_kernel.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/permaviss/persistence_algebra/image_kernel.py b/src/permaviss/persistence_algebra/image_kernel.py
index 3f5dae4..dd86f2d 100644
--- a/src/permaviss/persistence_algebra/image_kernel.py
+++ b/src/permaviss/persistence_algebra/image_kernel.py
@@ -203,6 +203,11 @@ def image_kernel(A, B, F, p, start_index=0, prev_basis=None):
                 if (col_idx >= start_index) and (pivots_Im[col_idx] != -1):
                     Im_barcode[col_idx, 1] = rad
                     pivots_Im[col_idx] = int(-1)
+                    # drop active generators if the class would not vanish
+                    if start_index > 0 and np.any(multiply_mod_p(
+                            F[active_B][:, active_A],
+                            T[active_A, col_idx], p)):
+                        T[active_A, col_idx] = 0
                 # end if
             # end for
             # update broken barcodes
-- 
2.43.0


From facea6259e1eb2b20a385245a0342761f3de0930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:43 +0000
Subject: [PATCH 06/20] fix: relative image representatives lie in the module
 from their birth on

---
 src/permaviss/persistence_algebra/image_kernel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/permaviss/persistence_algebra/image_kernel.py b/src/permaviss/persistence_algebra/image_kernel.py
index dd86f2d..0472865 100644
--- a/src/permaviss/persistence_algebra/image_kernel.py
+++ b/src/permaviss/persistence_algebra/image_kernel.py
@@ -253,6 +253,10 @@ def image_kernel(A, B, F, p, start_index=0, prev_basis=None):
             # end if
         # end for
     # end if
+    if start_index > 0:
+        # representatives of the quotient do not use the relative generators
+        T[:start_index, start_index:] = 0
+        Im_coordinates = multiply_mod_p(F, T, p)
     Im_coordinates = Im_coordinates[return_order_B][:, start_index:]
     Im_basis = barcode_basis(Im_barcode[start_index:], B_origin,
                              Im_coordinates, store_well_defined=True)
-- 
2.43.0


From 3574414cc5061a88c0665dbcbef7168beaab8b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:43 +0000
Subject: [PATCH 07/20] fix: module_persistence_homology takes the quotient by
 the image when the next module is zero

---
 .../persistence_algebra/module_persistence_homology.py    | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/permaviss/persistence_algebra/module_persistence_homology.py b/src/permaviss/persistence_algebra/module_persistence_homology.py
index 8326975..7d9bf6e 100644
--- a/src/permaviss/persistence_algebra/module_persistence_homology.py
+++ b/src/permaviss/persistence_algebra/module_persistence_homology.py
@@ -101,8 +101,12 @@ def module_persistence_homology(D, Base, p):
             Im[d-1] = barcode_basis([], Base[d-1])
             Hom[d] = barcode_basis([], Base[d])
         elif Base[d-1].dim == 0:
-            Im[d-1] = Base[d-1]
-            Hom[d] = Base[d]
+            Im[d-1] = barcode_basis([], Base[d-1])
+            # all the generators from Base[d] lie in the kernel
+            Ker = barcode_basis(
+                Base[d].barcode, Base[d], np.identity(Base[d].dim))
+            Ker.sort()
+            Hom[d] = quotient(Ker, Im[d], p)
         else:
             # compute barcode bases for image and kernel
             Im[d - 1], Ker, PreIm[d] = image_kernel(
-- 
2.43.0


From f4dbde2d1de43c6688060b820351ab0884ff2339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:13 +0000
Subject: [PATCH 08/20] fix: generate_cover keeps one division along dimensions
 where the cloud is flat

---
 src/permaviss/covers/cubical_cover.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/permaviss/covers/cubical_cover.py b/src/permaviss/covers/cubical_cover.py
index 159c4ae..aa6af34 100755
--- a/src/permaviss/covers/cubical_cover.py
+++ b/src/permaviss/covers/cubical_cover.py
@@ -124,7 +124,11 @@ def generate_cover(max_div, overlap, point_cloud):
     div = []  # list containing no of divisions per dimension
     pos = []  # list containing current position
     for d in range(dim):
-        div.append(math.ceil((max_corner[d] - min_corner[d]) / side))
+        # a dimension where all points coincide has a single division
+        if max_corner[d] > min_corner[d]:
+            div.append(math.ceil((max_corner[d] - min_corner[d]) / side))
+        else:
+            div.append(1)
         number_hypercubes *= div[d]  # compute total number of hypercubes
         pos.append(0)  # initialize position list to zero
 
-- 
2.43.0


From e843c2e7c349e80a09a917afe4f3100bee8cc321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:13 +0000
Subject: [PATCH 09/20] fix: generate_cover does not truncate hypercube corners
 of integer point clouds

---
 src/permaviss/covers/cubical_cover.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/permaviss/covers/cubical_cover.py b/src/permaviss/covers/cubical_cover.py
index aa6af34..38a07d5 100755
--- a/src/permaviss/covers/cubical_cover.py
+++ b/src/permaviss/covers/cubical_cover.py
@@ -147,9 +147,9 @@ def generate_cover(max_div, overlap, point_cloud):
 
     for i in range(number_hypercubes):
         # Find two corners and center point of small hypercube
-        lcor = np.copy(min_corner)      # lower corner
-        ucor = np.copy(min_corner)      # upper corner
-        center = np.copy(min_corner)    # center point
+        lcor = np.array(min_corner, dtype=float)      # lower corner
+        ucor = np.array(min_corner, dtype=float)      # upper corner
+        center = np.array(min_corner, dtype=float)    # center point
         for d in range(dim):
             lcor[d] += side * pos[d]
             ucor[d] += side * pos[d]
-- 
2.43.0


From 5323b176cbe702690cb8b755b1dba28817f8b784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:23 +0000
Subject: [PATCH 10/20] fix: persistent_homology of a spectral sequence stays
 indexed by degree

---
 src/permaviss/spectral_sequence/MV_spectral_seq.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/permaviss/spectral_sequence/MV_spectral_seq.py b/src/permaviss/spectral_sequence/MV_spectral_seq.py
index 2455bc3..315dd4a 100755
--- a/src/permaviss/spectral_sequence/MV_spectral_seq.py
+++ b/src/permaviss/spectral_sequence/MV_spectral_seq.py
@@ -274,6 +274,10 @@ def create_MV_ss(point_cloud, max_r, max_dim, max_div, overlap, p):
             PH, _ = image_kernel(
                 diagonal_basis, direct_sum_basis, diag_diff, MV_ss.p)
             MV_ss.persistent_homology.append(PH)
+        else:
+            # keep persistent_homology and order indexed by degree
+            MV_ss.order_diagonal_basis.append(np.array([], dtype=int))
+            MV_ss.persistent_homology.append(barcode_basis([]))
         # end if
     # end for
     print("Total PerMaViss time:{}".format(time.time()-start))
-- 
2.43.0


From e9575c3d36b1071ec28e16ebd68551a86c28aff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:22 +0000
Subject: [PATCH 11/20] fix: gauss_col reduces its entries mod p before looking
 for pivots

---
 src/permaviss/gauss_mod_p/gauss_mod_p.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/permaviss/gauss_mod_p/gauss_mod_p.py b/src/permaviss/gauss_mod_p/gauss_mod_p.py
index 600977c..66b2528 100644
--- a/src/permaviss/gauss_mod_p/gauss_mod_p.py
+++ b/src/permaviss/gauss_mod_p/gauss_mod_p.py
@@ -65,7 +65,7 @@ def gauss_col(A, p):
     N = np.size(A, 1)
     # copy of matrix to be reduced
     # The matrix is transposed for more computational efficiency
-    R = np.copy(np.transpose(A))
+    R = np.transpose(A) % p
     T = np.identity(N)
     # iterate over all columns
     for j in range(N):
-- 
2.43.0


From bab1d21c63d00ac9d7e8e83a35f5f2987fa4a7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:49 +0000
Subject: [PATCH 12/20] fix: lift Cech differentials that are boundaries on
 covers without homology classes

---
 src/permaviss/spectral_sequence/spectral_sequence_class.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/permaviss/spectral_sequence/spectral_sequence_class.py b/src/permaviss/spectral_sequence/spectral_sequence_class.py
index 1209417..5ff244b 100644
--- a/src/permaviss/spectral_sequence/spectral_sequence_class.py
+++ b/src/permaviss/spectral_sequence/spectral_sequence_class.py
@@ -534,8 +534,9 @@ class spectral_sequence(object):
         # if nerve_spx_index==0, then prev=0
         prev = self.cycle_dimensions[n_dim][deg][nerve_spx_index-1]
         next = self.cycle_dimensions[n_dim][deg][nerve_spx_index]
-        # if trivial cover skip
-        if prev == next:
+        # if trivial cover skip; boundaries might need lifting even when there
+        # are no homology classes
+        if prev == next and self.Im[0][n_dim][nerve_spx_index][deg].dim == 0:
             return
         # CECH DIFFERENTIAL
         generators, local_chains = self.cech_diff_local(
-- 
2.43.0


From 306da3226b0c551e13227967a74cdbcf53801a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:12 +0000
Subject: [PATCH 13/20] fix: barcode bases are sorted by their exact radii

---
 src/permaviss/persistence_algebra/barcode_bases.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/permaviss/persistence_algebra/barcode_bases.py b/src/permaviss/persistence_algebra/barcode_bases.py
index 65ebb7a..4eccb59 100644
--- a/src/permaviss/persistence_algebra/barcode_bases.py
+++ b/src/permaviss/persistence_algebra/barcode_bases.py
@@ -173,7 +173,7 @@ class barcode_basis(object):
 
         return ""
 
-    def sort(self, precision=7, send_order=False):
+    def sort(self, precision=None, send_order=False):
         """Sorts a barcode basis according to the standard barcode order.
 
         That is, from smaller birth radius to bigger, and from
@@ -182,8 +182,8 @@ class barcode_basis(object):
 
         Parameters
         ----------
-        precision : int, default is 7
-            Number of zeros of precision.
+        precision : None or int, default is None
+            Number of zeros of precision. If it is None, the order is exact.
         send_order : bool, default is False
             Whether we want to generate a :obj:`Numpy Array` storing
             the original order.
@@ -218,7 +218,9 @@ class barcode_basis(object):
 
         """
 
-        aux_bars = np.around(self.barcode, decimals=precision)
+        aux_bars = self.barcode
+        if precision is not None:
+            aux_bars = np.around(self.barcode, decimals=precision)
         order = np.lexsort((-aux_bars[:, 1], aux_bars[:, 0]))
         if self.prev_basis is not None:
             self.coordinates = self.coordinates[:, order]
-- 
2.43.0


From 3f4a60f6ed8695515f3c55903858923233998a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:54 +0000
Subject: [PATCH 14/20] fix: lift_to_page keeps image coefficients when no
 homology class is left

---
 src/permaviss/spectral_sequence/spectral_sequence_class.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/permaviss/spectral_sequence/spectral_sequence_class.py b/src/permaviss/spectral_sequence/spectral_sequence_class.py
index 5ff244b..ddfc25d 100644
--- a/src/permaviss/spectral_sequence/spectral_sequence_class.py
+++ b/src/permaviss/spectral_sequence/spectral_sequence_class.py
@@ -196,7 +196,7 @@ class spectral_sequence(object):
                 self.Im_reps[k].append([[]])
                 for deg in range(self.no_rows):
                     self.Hom[k][n_dim].append(barcode_basis([]))
-                    self.Im[k][n_dim].append([])
+                    self.Im[k][n_dim].append(barcode_basis([]))
                     self.PreIm[k][n_dim].append([])
                     self.Hom_reps[k][n_dim].append([])
                     self.Im_reps[k][n_dim].append([])
@@ -385,6 +385,9 @@ class spectral_sequence(object):
                 else:
                     Im_Hom = Hom.coordinates
                     barcode_col = Hom.barcode
+            elif Im.dim > 0:
+                Im_Hom = Im.coordinates
+                barcode_col = Im.barcode
             else:
                 Betas = np.array([])
                 Gammas = np.array([])
-- 
2.43.0


From 3f3f15f37b4ff0cddadf1a22bd05fa7ec2fda966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:29 +0000
Subject: [PATCH 15/20] fix: the extension problem subtracts total complex
 boundaries of page images

---
 .../spectral_sequence_class.py                | 36 ++++++++++---------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/permaviss/spectral_sequence/spectral_sequence_class.py b/src/permaviss/spectral_sequence/spectral_sequence_class.py
index ddfc25d..874179c 100644
--- a/src/permaviss/spectral_sequence/spectral_sequence_class.py
+++ b/src/permaviss/spectral_sequence/spectral_sequence_class.py
@@ -1128,34 +1128,38 @@ class spectral_sequence(object):
                     raise(RuntimeError)
                 # MODIFY TOTAL COMPLEX REPS using GAMMAS
                 if np.any(Gammas):
-                    # compute coefficients of Gammas in 1st page
-                    image_classes = np.matmul(
-                        self.Im[target_page-1][Sn_dim][Sdeg].coordinates,
-                        -Gammas.T)
-                    # look for bars that might be already zero
+                    # the images are Cech differentials of preimage chains
+                    # that lie in position (Sn_dim + 1, Sdeg)
+                    preimage_coefficients = np.matmul(
+                        self.PreIm[target_page-1][Sn_dim + target_page - 1][
+                            Sdeg - target_page + 2], -Gammas.T)
                     if target_page == 2:
-                        # obtain coefficients for gammas
-                        image_chains = local_chains(
-                            self.nerve_spx_number[Sn_dim])
+                        # obtain local preimage chains from first page classes
+                        preimage_chains = local_chains(
+                            self.nerve_spx_number[Sn_dim + 1])
                         prev = 0
                         for nerv_idx, next in enumerate(self.cycle_dimensions[
-                                Sn_dim][Sdeg]):
+                                Sn_dim + 1][Sdeg]):
                             if prev < next:
-                                image_chains.add_entry(
+                                preimage_chains.add_entry(
                                     nerv_idx, range(np.size(Gammas, 0)),
                                     np.matmul(
-                                        image_classes[prev:next].T,
-                                        self.Hom[0][Sn_dim][nerv_idx][
-                                            Sdeg].coordinates.T)
+                                        self.Hom[0][Sn_dim + 1][nerv_idx][
+                                            Sdeg].coordinates,
+                                        preimage_coefficients[prev:next]).T
                                 )
                             prev = next
                         # end for
                     else:
-                        image_chains = local_chains.sums(
-                            self.Hom_reps[target_page-2][Sn_dim][Sdeg][0],
-                            image_classes.T
+                        preimage_chains = local_chains.sums(
+                            self.Hom_reps[target_page-2][
+                                Sn_dim + target_page - 1][
+                                    Sdeg - target_page + 2][-1],
+                            preimage_coefficients.T
                         )
                     # end else
+                    image_chains = self.cech_diff(
+                        Sn_dim, Sdeg, preimage_chains)
                     chains += image_chains
                 # end if
             # end for
-- 
2.43.0


From 6832939d4aea369965186439b7119654bc1c0ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:58 +0000
Subject: [PATCH 16/20] fix: higher page representatives are corrected by
 preimages of the right page

---
 src/permaviss/spectral_sequence/spectral_sequence_class.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/permaviss/spectral_sequence/spectral_sequence_class.py b/src/permaviss/spectral_sequence/spectral_sequence_class.py
index 874179c..e5da698 100644
--- a/src/permaviss/spectral_sequence/spectral_sequence_class.py
+++ b/src/permaviss/spectral_sequence/spectral_sequence_class.py
@@ -1014,9 +1014,9 @@ class spectral_sequence(object):
                     prev = next
                 # end for
             elif np.any(Gammas):
-                for chains in self.Hom_reps[target_page][Tn_dim][Tdeg]:
+                for chains in self.Hom_reps[target_page - 2][Tn_dim][Tdeg]:
                     preimage_reps.append(local_chains.sums(
-                        chains, preimage_coefficients))
+                        chains, preimage_coefficients.T))
                 # add preimage reps to current tot_complex reps
                 for idx, chains in enumerate(preimage_reps):
                     total_complex_reps[
-- 
2.43.0


From 1e015016f9e2e37b64210a9fec161386f300f89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:49 +0000
Subject: [PATCH 17/20] fix: extension corrections add chains with different
 references

---
 .../spectral_sequence_class.py                | 22 +++----------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/src/permaviss/spectral_sequence/spectral_sequence_class.py b/src/permaviss/spectral_sequence/spectral_sequence_class.py
index e5da698..93be9b8 100644
--- a/src/permaviss/spectral_sequence/spectral_sequence_class.py
+++ b/src/permaviss/spectral_sequence/spectral_sequence_class.py
@@ -1093,27 +1093,11 @@ class spectral_sequence(object):
                 for ext_deg, Schains in enumerate(
                         self.Hom_reps[self.no_pages - 1][Sn_dim][Sdeg]):
                     # compute chains using betas and substract to reps
-                    # problem with local sums!!!
                     local_chains_beta = local_chains.sums(Schains, -Betas)
-                    for k, local_coord in enumerate(
-                            Hom_reps[ext_deg + idx].coord):
-                        local_ref = Hom_reps[ext_deg + idx].ref[k]
-                        if (len(local_ref)) > 0 and (
-                                len(local_chains_beta.ref[k]) > 0):
-                            if not np.array_equal(
-                                    local_ref, local_chains_beta.ref[k]):
-                                raise ValueError
-                            Hom_reps[ext_deg + idx].coord[k] = (
-                                local_coord + local_chains_beta.coord[k]
-                                ) % self.p
-                        elif len(local_chains_beta.ref[k]) > 0:
-                            Hom_reps[ext_deg + idx].ref[
-                                k] = local_chains_beta.ref[k]
-                            Hom_reps[ext_deg + idx].coord[
-                                k] = local_chains_beta.coord[k]
-                        # end elif
-                    # end for
+                    Hom_reps[ext_deg + idx] = (
+                        Hom_reps[ext_deg + idx] + local_chains_beta)
                 # end for
+                chains = Hom_reps[idx]
             # end if
             # reduce up to 1st page using gammas
             for target_page in range(self.no_pages, 1, -1):
-- 
2.43.0


From 3d7d411e0bc85d31b80397ee2ae8858920021d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:49 +0000
Subject: [PATCH 18/20] fix: random_sphere returns points at the requested
 radius

---
 src/permaviss/sample_point_clouds/examples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/permaviss/sample_point_clouds/examples.py b/src/permaviss/sample_point_clouds/examples.py
index 9c8265f..46169a8 100755
--- a/src/permaviss/sample_point_clouds/examples.py
+++ b/src/permaviss/sample_point_clouds/examples.py
@@ -167,7 +167,7 @@ def random_sphere(no_points, radius, dim):
         v = np.array(point)
         norm = np.linalg.norm(v)
         for d in range(dim):
-            point[d] = point[d] / norm
+            point[d] = radius * point[d] / norm
 
         point_cloud.append(point)
 
-- 
2.43.0


From 8b986516e509129dd6c88f89bc951bdab3cf3afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:58 +0000
Subject: [PATCH 19/20] fix: image_kernel recomputes all pivots after updating
 a broken basis

A coordinate update of a broken basis can give a column a new last nonzero
entry, while its old pivot was kept. Reducing against such a column could
recurse forever (bars of length 1..3 chained by extensions, n=6, p=3).
---
 src/permaviss/persistence_algebra/image_kernel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/permaviss/persistence_algebra/image_kernel.py b/src/permaviss/persistence_algebra/image_kernel.py
index 0472865..d50b24d 100644
--- a/src/permaviss/persistence_algebra/image_kernel.py
+++ b/src/permaviss/persistence_algebra/image_kernel.py
@@ -216,7 +216,10 @@ def image_kernel(A, B, F, p, start_index=0, prev_basis=None):
         # end if else
         new_pivots = []
         for col_idx, piv in enumerate(np.copy(pivots_Im)):
-            if (piv >= 0 and Im_coordinates[piv, col_idx] % p == 0) or (
+            # coordinates on a broken basis change whenever a bar of B dies
+            broken_update = B.broken_basis and piv >= 0 and len(dying_B) > 0
+            if broken_update or (
+                    piv >= 0 and Im_coordinates[piv, col_idx] % p == 0) or (
                     piv in dying_B) or (piv in new_pivots) or (col_idx in birth_A):
                 pivots_Im[col_idx] = pivot_check_reduce(
                     Im_coordinates, active_B, col_idx, pivots_Im[:col_idx],
-- 
2.43.0


From 0f469d065b05aa88cbe4eb3d1fd7818ff630c6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:47 +0000
Subject: [PATCH 20/20] fix: reduce columns in image_kernel without recursion

A column that needs about a thousand reductions exceeded the recursion
limit of Python, so that image_kernel failed with a RecursionError.
---
 .../persistence_algebra/image_kernel.py       | 32 ++++++++++---------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/permaviss/persistence_algebra/image_kernel.py b/src/permaviss/persistence_algebra/image_kernel.py
index d50b24d..08aa224 100644
--- a/src/permaviss/persistence_algebra/image_kernel.py
+++ b/src/permaviss/persistence_algebra/image_kernel.py
@@ -283,21 +283,23 @@ def image_kernel(A, B, F, p, start_index=0, prev_basis=None):
 
 def pivot_check_reduce(M, active_rows, col_idx, pivots_prev, p, T=None):
     new_pivot = index_pivot(M[active_rows, col_idx] % p)
-    if new_pivot != -1:
+    while new_pivot != -1:
         new_pivot = int(active_rows[new_pivot])
-        if (new_pivot != -1) and (new_pivot in pivots_prev):
-            prev_idx = list(pivots_prev).index(new_pivot)
-            q = (-M[new_pivot, col_idx] * inv_mod_p(
-                M[new_pivot, prev_idx], p)) % p
-            M[:, col_idx] = add_mod_c(
-                q * M[:, prev_idx], M[:, col_idx], p)
-            if np.any(T):
-                T[:, col_idx] = add_mod_c(
-                    q * T[:, prev_idx], T[:, col_idx], p)
-            # end if not None
-            new_pivot = pivot_check_reduce(
-                M, active_rows, col_idx, pivots_prev, p, T)
-        # end if
-    # end if
+        if new_pivot not in pivots_prev:
+            break
+
+        prev_idx = list(pivots_prev).index(new_pivot)
+        q = (-M[new_pivot, col_idx] * inv_mod_p(
+            M[new_pivot, prev_idx], p)) % p
+        M[:, col_idx] = add_mod_c(
+            q * M[:, prev_idx], M[:, col_idx], p)
+        if np.any(T):
+            T[:, col_idx] = add_mod_c(
+                q * T[:, prev_idx], T[:, col_idx], p)
+        # end if not None
+        new_pivot = index_pivot(M[active_rows, col_idx] % p)
+    # end while
+
     return int(new_pivot)
+
 # end def
-- 
2.43.0

