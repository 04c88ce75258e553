From cd22953f93497c93a0e6042fdafefbb8e834c9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:38 +0000
Subject: [PATCH 1/8] fix: outercore integrals: do not overwrite the origin of
 the caller's outercore shells

The routines bound the outercore shells to the RPP center by writing to the
shells passed by the caller. Two threads using the same shells for different
centers got wrong integrals, and the caller's objects were changed.
---
 libgrpp/outercore_integrals.c | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/libgrpp/outercore_integrals.c b/libgrpp/outercore_integrals.c
index 99b8073..5ef20f1 100644
--- a/libgrpp/outercore_integrals.c
+++ b/libgrpp/outercore_integrals.c
@@ -103,13 +103,6 @@ void libgrpp_outercore_potential_integrals(
     memset(esop_y, 0, size_A * size_B * sizeof(double));
     memset(esop_z, 0, size_A * size_B * sizeof(double));
 
-    // bind outercore shells of the GRPP to the RPP center
-    for (int ioc = 0; ioc < num_oc_shells; ioc++) {
-        oc_shells[ioc]->origin[0] = rpp_origin[0];
-        oc_shells[ioc]->origin[1] = rpp_origin[1];
-        oc_shells[ioc]->origin[2] = rpp_origin[2];
-    }
-
     // 1. the U * |nlj><nlj| + |nlj><nlj| * U part
     for (int ioc = 0; ioc < num_oc_shells; ioc++) {
         libgrpp_potential_t *pot = oc_potentials[ioc];
@@ -150,19 +143,20 @@ void libgrpp_outercore_potential_integrals_part_1(
     double *arep_matrix, double *so_x_matrix, double *so_y_matrix, double *so_z_matrix
 )
 {
+    /*
+     * foolproof: bind outercore shells to the ECP center
+     * (a local copy is used: the caller's shell can be shared between threads)
+     */
+    libgrpp_shell_t oc_shell_at_C = *oc_shell;
+    memcpy(oc_shell_at_C.origin, C, 3 * sizeof(double));
+    oc_shell = &oc_shell_at_C;
+
     int L = oc_shell->L;
     double J = oc_potential->J / 2.0;
     int size_A = libgrpp_get_shell_size(shell_A);
     int size_B = libgrpp_get_shell_size(shell_B);
     int size_nlj = libgrpp_get_shell_size(oc_shell);
 
-    /*
-     * foolproof: bind outercore shells to the ECP center
-     */
-    oc_shell->origin[0] = C[0];
-    oc_shell->origin[1] = C[1];
-    oc_shell->origin[2] = C[2];
-
     /*
      * Transformation coefficients: Cartesian -> Real spherical
      * Rows: real spherical harmonics S_lm
@@ -293,13 +287,14 @@ void libgrpp_outercore_potential_integrals_part_2(
 
     /*
      * foolproof: bind outercore shells to the ECP center
+     * (local copies are used: the caller's shells can be shared between threads)
      */
-    oc_shell_1->origin[0] = C[0];
-    oc_shell_1->origin[1] = C[1];
-    oc_shell_1->origin[2] = C[2];
-    oc_shell_2->origin[0] = C[0];
-    oc_shell_2->origin[1] = C[1];
-    oc_shell_2->origin[2] = C[2];
+    libgrpp_shell_t oc_shell_1_at_C = *oc_shell_1;
+    libgrpp_shell_t oc_shell_2_at_C = *oc_shell_2;
+    memcpy(oc_shell_1_at_C.origin, C, 3 * sizeof(double));
+    memcpy(oc_shell_2_at_C.origin, C, 3 * sizeof(double));
+    oc_shell_1 = &oc_shell_1_at_C;
+    oc_shell_2 = &oc_shell_2_at_C;
 
     /*
      * just to be consistent with the MOLGEP code by A. Titov, N. Mosyagin, A. Petrov:
-- 
2.43.0


From 11947402da124ce7017458c61308deca4c4c00fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:38 +0000
Subject: [PATCH 2/8] fix: overlap gradients: do not modify the shell of the
 caller during differentiation

The list of cartesian components of the shell A was changed in place for a
while, so that other threads using the same shell saw wrong components.
---
 libgrpp/overlap_gradient.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libgrpp/overlap_gradient.c b/libgrpp/overlap_gradient.c
index de99af4..742d7b0 100644
--- a/libgrpp/overlap_gradient.c
+++ b/libgrpp/overlap_gradient.c
@@ -115,7 +115,9 @@ void overlap_gradient_diff_bra_contribution(
         for (int i = 0; i < shell_A->cart_size; i++) {
             for (int j = 0; j < shell_B->cart_size; j++) {
 
-                int *bra_nlm = shell_A->cart_list + 3 * i;
+                // local copy: shells passed by the caller must not be modified
+                int bra_nlm[3];
+                memcpy(bra_nlm, shell_A->cart_list + 3 * i, 3 * sizeof(int));
                 int *ket_nlm = shell_B->cart_list + 3 * j;
                 int index = i * shell_B->cart_size + j;
 
-- 
2.43.0


From aa370cab20ffb93cb3330ad1dc668fcba7006a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:38 +0000
Subject: [PATCH 3/8] fix: gradients: skip L-1 contributions with the zero
 prefactor

For components with zero power of x (y, z) the component with the power -1 was
looked up and not found, and a matrix element past the end of the array was
read and multiplied by zero (NaN if the memory happened to contain NaN or Inf).
---
 libgrpp/grpp_integrals_gradient.c | 6 +++---
 libgrpp/overlap_gradient.c        | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libgrpp/grpp_integrals_gradient.c b/libgrpp/grpp_integrals_gradient.c
index 5e56128..f342a9f 100644
--- a/libgrpp/grpp_integrals_gradient.c
+++ b/libgrpp/grpp_integrals_gradient.c
@@ -456,7 +456,7 @@ void grpp_gradient_diff_bra_contribution(
                 /*
                  * contribution from the L-1 gaussian
                  */
-                if (shell_A->L > 0) {
+                if (bra_nlm[icoord] > 0) {
                     bra_nlm[icoord] -= 1;
                     int bra_index = nlm_to_linear(bra_nlm);
                     int ket_index = nlm_to_linear(ket_nlm);
@@ -650,7 +650,7 @@ void grpp_gradient_diff_ket_contribution(
                 /*
                  * contribution from the L-1 gaussian
                  */
-                if (shell_B->L > 0) {
+                if (ket_nlm[icoord] > 0) {
                     ket_nlm[icoord] -= 1;
                     int bra_index = nlm_to_linear(bra_nlm);
                     int ket_index = nlm_to_linear(ket_nlm);
@@ -852,7 +852,7 @@ void grpp_gradient_contribution(
                 /*
                  * contribution from the L-1 gaussian
                  */
-                if (cart_size_down > 0) {
+                if (diff_nlm[icoord] > 0) {
                     diff_nlm[icoord] -= 1;
                     int bra_index = nlm_to_linear(bra_nlm);
                     int ket_index = nlm_to_linear(ket_nlm);
diff --git a/libgrpp/overlap_gradient.c b/libgrpp/overlap_gradient.c
index 742d7b0..4dd4d77 100644
--- a/libgrpp/overlap_gradient.c
+++ b/libgrpp/overlap_gradient.c
@@ -124,7 +124,7 @@ void overlap_gradient_diff_bra_contribution(
                 /*
                  * contribution from the L-1 gaussian
                  */
-                if (shell_A->L > 0) {
+                if (bra_nlm[icoord] > 0) {
                     bra_nlm[icoord] -= 1;
                     int bra_index = nlm_to_linear(bra_nlm);
                     int ket_index = nlm_to_linear(ket_nlm);
-- 
2.43.0


From b92e17966e3bca417fbd6ac0317e1092b7eed100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:02 +0000
Subject: [PATCH 4/8] fix: libgrpp_shell_deep_copy: keep the cartesian
 components of the source shell

The list was generated anew, in another order than that of the source shell if
the order had been changed in between.
---
 libgrpp/shell.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libgrpp/shell.c b/libgrpp/shell.c
index 3024fd5..199c54a 100644
--- a/libgrpp/shell.c
+++ b/libgrpp/shell.c
@@ -55,6 +55,9 @@ libgrpp_shell_t *libgrpp_shell_deep_copy(libgrpp_shell_t *src_shell)
         src_shell->coeffs,
         src_shell->alpha
     );
+    for (int i = 0; i < 3 * src_shell->cart_size; i++) {
+        new_shell->cart_list[i] = src_shell->cart_list[i];
+    }
 
     return new_shell;
 }
-- 
2.43.0


From bcbb4294f074a24f37372852e912231db87d64b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:23 +0000
Subject: [PATCH 5/8] fix: gradients: use the cartesian components of the
 shells themselves

Gradients looked up components in the order set at the moment of the call, not
in the lists stored in the shells. If the order was changed after the shells had
been created (or by another thread during the call), wrong elements were taken.
---
 libgrpp/diff_gaussian.c           |  6 ++++++
 libgrpp/grpp_integrals_gradient.c | 26 ++++++++------------------
 libgrpp/overlap_gradient.c        | 11 +++++++----
 3 files changed, 21 insertions(+), 22 deletions(-)

diff --git a/libgrpp/diff_gaussian.c b/libgrpp/diff_gaussian.c
index 563961c..1a2fc4c 100644
--- a/libgrpp/diff_gaussian.c
+++ b/libgrpp/diff_gaussian.c
@@ -20,12 +20,16 @@
 
 static double norm_factor(double alpha, int L);
 
+int cartesian_generator_dirac(int L, int *cart_list);
+
 
 /**
  * Performs differentiation of a contracted Gaussian.
  *
  * Note that the "2 alpha" factors are absorbed into coefficients, while the 'n' factor is not.
  * The latter must be accounted for explicitly at the stage of gradient construction.
+ * Components of both resulting shells are always listed in the order of the DIRAC program,
+ * independently of the order set by the user.
  * For more details, see:
  * T. Helgaker, P. Jorgensen, J. Olsen, Molecular Electronic-Structure Theory,
  * John Wiley & Sons Ltd, 2000.
@@ -38,6 +42,7 @@ void differentiate_shell(libgrpp_shell_t *shell, libgrpp_shell_t **shell_minus,
     if (shell->L > 0) {
         *shell_minus = libgrpp_new_shell(shell->origin, shell->L - 1, shell->num_primitives, shell->coeffs,
                                          shell->alpha);
+        cartesian_generator_dirac(shell->L - 1, (*shell_minus)->cart_list);
 
         for (int i = 0; i < shell->num_primitives; i++) {
 
@@ -53,6 +58,7 @@ void differentiate_shell(libgrpp_shell_t *shell, libgrpp_shell_t **shell_minus,
 
     // upwards
     *shell_plus = libgrpp_new_shell(shell->origin, shell->L + 1, shell->num_primitives, shell->coeffs, shell->alpha);
+    cartesian_generator_dirac(shell->L + 1, (*shell_plus)->cart_list);
     for (int i = 0; i < shell->num_primitives; i++) {
 
         double alpha = shell->alpha[i];
diff --git a/libgrpp/grpp_integrals_gradient.c b/libgrpp/grpp_integrals_gradient.c
index f342a9f..94c1570 100644
--- a/libgrpp/grpp_integrals_gradient.c
+++ b/libgrpp/grpp_integrals_gradient.c
@@ -446,11 +446,6 @@ void grpp_gradient_diff_bra_contribution(
                 bra_nlm[1] = shell_A->cart_list[3 * i + 1];
                 bra_nlm[2] = shell_A->cart_list[3 * i + 2];
 
-                int ket_nlm[3];
-                ket_nlm[0] = shell_B->cart_list[3 * j + 0];
-                ket_nlm[1] = shell_B->cart_list[3 * j + 1];
-                ket_nlm[2] = shell_B->cart_list[3 * j + 2];
-
                 int index = i * shell_B->cart_size + j;
 
                 /*
@@ -459,7 +454,7 @@ void grpp_gradient_diff_bra_contribution(
                 if (bra_nlm[icoord] > 0) {
                     bra_nlm[icoord] -= 1;
                     int bra_index = nlm_to_linear(bra_nlm);
-                    int ket_index = nlm_to_linear(ket_nlm);
+                    int ket_index = j;
                     bra_nlm[icoord] += 1;
 
                     grad_arep[icoord][index] -=
@@ -477,7 +472,7 @@ void grpp_gradient_diff_bra_contribution(
                  */
                 bra_nlm[icoord] += 1;
                 int bra_index = nlm_to_linear(bra_nlm);
-                int ket_index = nlm_to_linear(ket_nlm);
+                int ket_index = j;
                 bra_nlm[icoord] -= 1;
 
                 grad_arep[icoord][index] += factor * arep_matrix_up[shell_B->cart_size * bra_index + ket_index];
@@ -635,11 +630,6 @@ void grpp_gradient_diff_ket_contribution(
         for (int i = 0; i < shell_A->cart_size; i++) {
             for (int j = 0; j < shell_B->cart_size; j++) {
 
-                int bra_nlm[3];
-                bra_nlm[0] = shell_A->cart_list[3 * i + 0];
-                bra_nlm[1] = shell_A->cart_list[3 * i + 1];
-                bra_nlm[2] = shell_A->cart_list[3 * i + 2];
-
                 int ket_nlm[3];
                 ket_nlm[0] = shell_B->cart_list[3 * j + 0];
                 ket_nlm[1] = shell_B->cart_list[3 * j + 1];
@@ -652,7 +642,7 @@ void grpp_gradient_diff_ket_contribution(
                  */
                 if (ket_nlm[icoord] > 0) {
                     ket_nlm[icoord] -= 1;
-                    int bra_index = nlm_to_linear(bra_nlm);
+                    int bra_index = i;
                     int ket_index = nlm_to_linear(ket_nlm);
                     ket_nlm[icoord] += 1;
 
@@ -670,7 +660,7 @@ void grpp_gradient_diff_ket_contribution(
                  * contribution from the L+1 gaussian
                  */
                 ket_nlm[icoord] += 1;
-                int bra_index = nlm_to_linear(bra_nlm);
+                int bra_index = i;
                 int ket_index = nlm_to_linear(ket_nlm);
                 ket_nlm[icoord] -= 1;
 
@@ -854,8 +844,8 @@ void grpp_gradient_contribution(
                  */
                 if (diff_nlm[icoord] > 0) {
                     diff_nlm[icoord] -= 1;
-                    int bra_index = nlm_to_linear(bra_nlm);
-                    int ket_index = nlm_to_linear(ket_nlm);
+                    int bra_index = diff_bra ? nlm_to_linear(bra_nlm) : i;
+                    int ket_index = diff_bra ? j : nlm_to_linear(ket_nlm);
                     diff_nlm[icoord] += 1;
 
                     int n = diff_nlm[icoord];
@@ -872,8 +862,8 @@ void grpp_gradient_contribution(
                  * contribution from the L+1 gaussian
                  */
                 diff_nlm[icoord] += 1;
-                int bra_index = nlm_to_linear(bra_nlm);
-                int ket_index = nlm_to_linear(ket_nlm);
+                int bra_index = diff_bra ? nlm_to_linear(bra_nlm) : i;
+                int ket_index = diff_bra ? j : nlm_to_linear(ket_nlm);
                 diff_nlm[icoord] -= 1;
 
                 int row_len = diff_bra ? shell_B->cart_size : cart_size_up;
diff --git a/libgrpp/overlap_gradient.c b/libgrpp/overlap_gradient.c
index 4dd4d77..87cde59 100644
--- a/libgrpp/overlap_gradient.c
+++ b/libgrpp/overlap_gradient.c
@@ -33,6 +33,8 @@ void overlap_gradient_diff_bra_overlap_integrals(
 
 int nlm_to_linear(int *nlm);
 
+int cartesian_generator_dirac(int L, int *cart_list);
+
 
 /**
  * Analytic calculation of gradients of overlap integrals for a given shell pair
@@ -118,7 +120,6 @@ void overlap_gradient_diff_bra_contribution(
                 // local copy: shells passed by the caller must not be modified
                 int bra_nlm[3];
                 memcpy(bra_nlm, shell_A->cart_list + 3 * i, 3 * sizeof(int));
-                int *ket_nlm = shell_B->cart_list + 3 * j;
                 int index = i * shell_B->cart_size + j;
 
                 /*
@@ -127,7 +128,7 @@ void overlap_gradient_diff_bra_contribution(
                 if (bra_nlm[icoord] > 0) {
                     bra_nlm[icoord] -= 1;
                     int bra_index = nlm_to_linear(bra_nlm);
-                    int ket_index = nlm_to_linear(ket_nlm);
+                    int ket_index = j;
                     bra_nlm[icoord] += 1;
 
                     grad[icoord][index] -=
@@ -139,7 +140,7 @@ void overlap_gradient_diff_bra_contribution(
                  */
                 bra_nlm[icoord] += 1;
                 int bra_index = nlm_to_linear(bra_nlm);
-                int ket_index = nlm_to_linear(ket_nlm);
+                int ket_index = j;
                 bra_nlm[icoord] -= 1;
 
                 grad[icoord][index] += factor * overlap_up[shell_B->cart_size * bra_index + ket_index];
@@ -217,6 +218,7 @@ void overlap_gradient_diff_bra_overlap_integrals(
 
 /**
  * calculates sequential ("linear") index of the (n,l,m) primitive in the cartesian shell
+ * obtained by differentiation (see differentiate_shell())
  */
 int nlm_to_linear(int *nlm)
 {
@@ -226,7 +228,8 @@ int nlm_to_linear(int *nlm)
 
     int L = n + l + m;
     int cart_size = (L + 1) * (L + 2) / 2;
-    int *cart_list = libgrpp_generate_shell_cartesians(L);
+    int *cart_list = (int *) calloc(3 * cart_size, sizeof(int));
+    cartesian_generator_dirac(L, cart_list);
 
     int index = 0;
     for (index = 0; index < cart_size; index++) {
-- 
2.43.0


From b8c73e0ac395ef5c0c60470993a0144b54e53893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 6/8] fix: outercore integrals: use each outercore shell's own
 order of Cartesian components

The off-diagonal part built the Cartesian-to-spherical coefficients from the first
outercore shell only and applied them to the overlaps with the second one too, which
is wrong if the two shells were created under different orders.
---
 libgrpp/outercore_integrals.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/libgrpp/outercore_integrals.c b/libgrpp/outercore_integrals.c
index 5ef20f1..b0c32c1 100644
--- a/libgrpp/outercore_integrals.c
+++ b/libgrpp/outercore_integrals.c
@@ -314,15 +314,23 @@ void libgrpp_outercore_potential_integrals_part_2(
      * Transformation coefficients: Cartesian -> Real spherical
      * Rows: real spherical harmonics S_lm
      * Columns: cartesians x^r y^s z^t
+     * (the order of Cartesian components is a property of the shell)
      */
-    double *S_lm_coef = (double *) calloc((2 * L + 1) * size_nlj, sizeof(double));
+    double *S_lm_coef_1 = (double *) calloc((2 * L + 1) * size_nlj, sizeof(double));
+    double *S_lm_coef_2 = (double *) calloc((2 * L + 1) * size_nlj, sizeof(double));
     for (int m = -L; m <= +L; m++) {
         for (int icart = 0; icart < size_nlj; icart++) {
             int r = oc_shell_1->cart_list[3 * icart + 0];
             int s = oc_shell_1->cart_list[3 * icart + 1];
             int t = oc_shell_1->cart_list[3 * icart + 2];
             double u = spherical_to_cartesian_coef(L, m, r, s, t) / ang_norm_factor(r, s, t);
-            S_lm_coef[size_nlj * (m + L) + icart] = u;
+            S_lm_coef_1[size_nlj * (m + L) + icart] = u;
+
+            r = oc_shell_2->cart_list[3 * icart + 0];
+            s = oc_shell_2->cart_list[3 * icart + 1];
+            t = oc_shell_2->cart_list[3 * icart + 2];
+            u = spherical_to_cartesian_coef(L, m, r, s, t) / ang_norm_factor(r, s, t);
+            S_lm_coef_2[size_nlj * (m + L) + icart] = u;
         }
     }
 
@@ -340,8 +348,8 @@ void libgrpp_outercore_potential_integrals_part_2(
     double *S_a_nljm1 = alloc_zeros_1d(size_A * (2 * L + 1));
     libgrpp_overlap_integrals(oc_shell_2, shell_B, S_nljm2_b_cart);  // <nljm|B>
     libgrpp_overlap_integrals(shell_A, oc_shell_1, S_a_nljm1_cart);  // <A|nljm>
-    transform_to_sph_basis_ket(size_A, size_nlj, 2 * L + 1, S_a_nljm1_cart, S_a_nljm1, S_lm_coef);
-    transform_to_sph_basis_bra(size_nlj, 2 * L + 1, size_B, S_nljm2_b_cart, S_nljm2_b, S_lm_coef);
+    transform_to_sph_basis_ket(size_A, size_nlj, 2 * L + 1, S_a_nljm1_cart, S_a_nljm1, S_lm_coef_1);
+    transform_to_sph_basis_bra(size_nlj, 2 * L + 1, size_B, S_nljm2_b_cart, S_nljm2_b, S_lm_coef_2);
     free(S_nljm2_b_cart);
     free(S_a_nljm1_cart);
 
@@ -381,7 +389,8 @@ void libgrpp_outercore_potential_integrals_part_2(
 
     free(S_nljm2_b);
     free(S_a_nljm1);
-    free(S_lm_coef);
+    free(S_lm_coef_1);
+    free(S_lm_coef_2);
 }
 
 
-- 
2.43.0


From 71b350b742ec15475cf108570505ae8fff8d8915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:16 +0000
Subject: [PATCH 7/8] fix: arrays on the stack too small for the highest
 documented angular momentum

The overlap, kinetic energy, momentum and type-1 recursions are entered with
L = LIBGRPP_MAX_BASIS_L (and one or two units more for the derivative terms),
but their tables were dimensioned for less and overran the stack.
---
 libgrpp/kinetic.c                  | 4 ++--
 libgrpp/momentum.c                 | 4 ++--
 libgrpp/overlap.c                  | 2 +-
 libgrpp/type1_mcmurchie_davidson.c | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/libgrpp/kinetic.c b/libgrpp/kinetic.c
index 2c6fca3..bce3f7d 100644
--- a/libgrpp/kinetic.c
+++ b/libgrpp/kinetic.c
@@ -83,7 +83,7 @@ void kinetic_energy_integrals_shell_pair_obara_saika(
     double *B = shell_B->origin;
 
     // calculate S_ij
-    double S[3][LIBGRPP_MAX_BASIS_L + 2][LIBGRPP_MAX_BASIS_L + 2];
+    double S[3][LIBGRPP_MAX_BASIS_L + 3][LIBGRPP_MAX_BASIS_L + 3];
 
     for (int coord = 0; coord < 3; coord++) {
         double P = (alpha_A * A[coord] + alpha_B * B[coord]) / p;
@@ -124,7 +124,7 @@ void kinetic_energy_integrals_shell_pair_obara_saika(
 
     // calculate D^2_ij
 
-    double D2[3][LIBGRPP_MAX_BASIS_L][LIBGRPP_MAX_BASIS_L];
+    double D2[3][LIBGRPP_MAX_BASIS_L + 1][LIBGRPP_MAX_BASIS_L + 1];
 
     for (int coord = 0; coord < 3; coord++) {
         for (int i = 0; i <= L_A; i++) {
diff --git a/libgrpp/momentum.c b/libgrpp/momentum.c
index 849457c..0a30146 100644
--- a/libgrpp/momentum.c
+++ b/libgrpp/momentum.c
@@ -105,7 +105,7 @@ void momentum_integrals_shell_pair_obara_saika(
     double *B = shell_B->origin;
 
     // calculate S_ij
-    double S[3][LIBGRPP_MAX_BASIS_L + 1][LIBGRPP_MAX_BASIS_L + 1];
+    double S[3][LIBGRPP_MAX_BASIS_L + 2][LIBGRPP_MAX_BASIS_L + 2];
 
     for (int coord = 0; coord < 3; coord++) {
         double P = (alpha_A * A[coord] + alpha_B * B[coord]) / p;
@@ -146,7 +146,7 @@ void momentum_integrals_shell_pair_obara_saika(
 
     // calculate D^1_ij
 
-    double D1[3][LIBGRPP_MAX_BASIS_L][LIBGRPP_MAX_BASIS_L];
+    double D1[3][LIBGRPP_MAX_BASIS_L + 1][LIBGRPP_MAX_BASIS_L + 1];
 
     for (int coord = 0; coord < 3; coord++) {
         for (int i = 0; i <= L_A; i++) {
diff --git a/libgrpp/overlap.c b/libgrpp/overlap.c
index fed9620..8a53a83 100644
--- a/libgrpp/overlap.c
+++ b/libgrpp/overlap.c
@@ -83,7 +83,7 @@ void overlap_integrals_shell_pair_obara_saika(
     double *A = shell_A->origin;
     double *B = shell_B->origin;
 
-    double S[3][LIBGRPP_MAX_BASIS_L][LIBGRPP_MAX_BASIS_L];
+    double S[3][LIBGRPP_MAX_BASIS_L + 2][LIBGRPP_MAX_BASIS_L + 2];
 
     for (int coord = 0; coord < 3; coord++) {
         double P = (alpha_A * A[coord] + alpha_B * B[coord]) / p;
diff --git a/libgrpp/type1_mcmurchie_davidson.c b/libgrpp/type1_mcmurchie_davidson.c
index a658bb0..52f5dee 100644
--- a/libgrpp/type1_mcmurchie_davidson.c
+++ b/libgrpp/type1_mcmurchie_davidson.c
@@ -63,8 +63,8 @@ struct mmd_data {
     double K_abc[3];
     double R_QC_2;
     double boys[100];
-    double E[3][LMAX][LMAX][2 * LMAX];
-    double R[2 * LMAX][2 * LMAX][2 * LMAX][2 * LMAX];
+    double E[3][LMAX + 2][LMAX + 2][2 * LMAX + 2];
+    double R[2 * LMAX + 2][2 * LMAX + 2][2 * LMAX + 2][2 * LMAX + 2];
 };
 
 
-- 
2.43.0


From 9bf94df7519392bec1c480aaad2d645ab3aa8f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:16 +0000
Subject: [PATCH 8/8] fix: double factorials beyond the table are computed, not
 refused

libgrpp_double_factorial() falls back to recursion for n > 30, but an assertion
aborted the program first: semilocal and spin-orbit integrals with
L_A + L_RPP > 14 and Gaussian nuclear models with L_A + L_B > 14.
---
 libgrpp/factorial.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgrpp/factorial.c b/libgrpp/factorial.c
index 1e1fae9..444dc88 100644
--- a/libgrpp/factorial.c
+++ b/libgrpp/factorial.c
@@ -104,7 +104,7 @@ static uint64_t pretabulated_double_factorials[] = {
 
 double double_factorial(int n)
 {
-    assert(n >= -1 && n <= 30);
+    assert(n >= -1);
     if (n == -1) {
         return 1;
     } else if (n <= 30) {
-- 
2.43.0

