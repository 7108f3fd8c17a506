From 05a4e6dcc4e854e06b7ae06b50468e964a306b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:48 +0000
Subject: [PATCH 01/22] fix: reject negative r in CubicSpline

Truncation toward zero mapped r in (-h,0) to interval 0, so the first
cubic was silently extrapolated instead of being reported as out of bounds.
---
 libsymmetrix/source/cubic_spline.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libsymmetrix/source/cubic_spline.cpp b/libsymmetrix/source/cubic_spline.cpp
index f53eb70..beb96f4 100644
--- a/libsymmetrix/source/cubic_spline.cpp
+++ b/libsymmetrix/source/cubic_spline.cpp
@@ -16,7 +16,7 @@ double CubicSpline::evaluate(double r)
 {
     const int i = static_cast<int>(r / h);
     // TODO: something better with this bounds checking
-    if (i<0 or i>=c.size()/4)
+    if (r<0 or i<0 or i>=c.size()/4)
         throw std::invalid_argument("Out of bounds in CubicSpline::evaluate.");
     const double x = r - h*i;
     const double xx = x*x;
@@ -30,7 +30,7 @@ std::tuple<double,double> CubicSpline::evaluate_deriv(double r)
 {
     const int i = static_cast<int>(r / h);
     // TODO: something better with this bounds checking
-    if (i<0 or i>=c.size()/4)
+    if (r<0 or i<0 or i>=c.size()/4)
         throw std::invalid_argument("Out of bounds in CubicSpline::evaluate_deriv.");
     const double x = r - h*i;
     const double xx = x*x;
@@ -44,7 +44,7 @@ std::tuple<double,double> CubicSpline::evaluate_deriv_divided(double r)
 {
     const int i = static_cast<int>(r / h);
     // TODO: something better with this bounds checking
-    if (i<0 or i>=c.size()/4)
+    if (r<0 or i<0 or i>=c.size()/4)
         throw std::invalid_argument("Out of bounds in CubicSpline::evaluate_deriv.");
     const double x = r - h*i;
     const double xx = x*x;
-- 
2.43.0


From fdf7efd35df5bf1b504f530924e7a0cc3ed9cd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:48 +0000
Subject: [PATCH 02/22] fix: bounds checking in CubicSplineSet

r outside [0, (num_nodes-1)*h) read past the coefficient array; report it
like CubicSpline does.
---
 libsymmetrix/source/cubic_spline_set.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libsymmetrix/source/cubic_spline_set.cpp b/libsymmetrix/source/cubic_spline_set.cpp
index 319d87f..2adeff2 100644
--- a/libsymmetrix/source/cubic_spline_set.cpp
+++ b/libsymmetrix/source/cubic_spline_set.cpp
@@ -1,3 +1,4 @@
+#include <stdexcept>
 #include <vector>
 
 #include "cubic_spline_set.hpp"
@@ -28,8 +29,9 @@ void CubicSplineSet::evaluate(
     double r,
     std::span<double> values)
 {
-    // TODO: bounds checking
     const int i = static_cast<int>(r / h);
+    if (r<0 or i<0 or i>=num_nodes-1)
+        throw std::invalid_argument("Out of bounds in CubicSplineSet::evaluate.");
     const double x = r - h*i;
     const double xx = x*x;
     const double xxx = xx*x;
@@ -51,8 +53,9 @@ void CubicSplineSet::evaluate_derivs(double r,
                                      std::span<double> values,
                                      std::span<double> derivs)
 {
-    // TODO: bounds checking
     const int i = static_cast<int>(r / h);
+    if (r<0 or i<0 or i>=num_nodes-1)
+        throw std::invalid_argument("Out of bounds in CubicSplineSet::evaluate_derivs.");
     const double x = r - h*i;
     const double xx = x*x;
     const double xxx = xx*x;
-- 
2.43.0


From 9675e3d429ad71809c2b5bc4ec48e3bbc7be3e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:41 +0000
Subject: [PATCH 03/22] fix: azimuth in sph_harm_xyz and real_sph_harm_xyz

sign(y)*acos(x/rho) gave azimuth 0 instead of pi on the half plane y=0, x<0
and NaN on the z axis (0/0).
---
 libsymmetrix/source/spherical_harmonic.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libsymmetrix/source/spherical_harmonic.cpp b/libsymmetrix/source/spherical_harmonic.cpp
index 1e2957c..9b44705 100644
--- a/libsymmetrix/source/spherical_harmonic.cpp
+++ b/libsymmetrix/source/spherical_harmonic.cpp
@@ -21,7 +21,7 @@ std::complex<double> sph_harm(int l, int m, double polar, double azimuth) {
 std::complex<double> sph_harm_xyz(int l, int m, double x, double y, double z) {
     double r = std::sqrt(x*x+y*y+z*z);
     double polar = std::acos(z/r);
-    double azimuth = ((y>0)-(y<0)) * std::acos(x/std::sqrt(x*x+y*y));
+    double azimuth = std::atan2(y, x);
     return sph_harm(l, m, polar, azimuth);
 }
 
@@ -38,7 +38,7 @@ double real_sph_harm(int l, int m, double polar, double azimuth) {
 double real_sph_harm_xyz(int l, int m, double x, double y, double z) {
     double r = std::sqrt(x*x+y*y+z*z);
     double polar = std::acos(z/r);
-    double azimuth = ((y>0)-(y<0)) * std::acos(x/std::sqrt(x*x+y*y));
+    double azimuth = std::atan2(y, x);
     return real_sph_harm(l, m, polar, azimuth);
 }
 
-- 
2.43.0


From 5701f58e01d8e35b2e55113c4f6cea60d846a190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:26 +0000
Subject: [PATCH 04/22] fix: ASE calculator evaluates every atom, with or
 without neighbours

---
 symmetrix/source/symmetrix/symmetrix_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symmetrix/source/symmetrix/symmetrix_calc.py b/symmetrix/source/symmetrix/symmetrix_calc.py
index 067af9a..a18e80a 100755
--- a/symmetrix/source/symmetrix/symmetrix_calc.py
+++ b/symmetrix/source/symmetrix/symmetrix_calc.py
@@ -75,7 +75,7 @@ class Symmetrix(Calculator):
         ase_atomic_numbers = self.atoms.get_atomic_numbers().tolist()
         mace_atomic_numbers = self.evaluator.atomic_numbers
         i_list, j_list, r, xyz = neighbor_list('ijdD', self.atoms, self.cutoff)
-        num_nodes = np.max(i_list) + 1
+        num_nodes = len(self.atoms)
         node_types = [mace_atomic_numbers.index(ase_atomic_numbers[i]) for i in range(num_nodes)]
         num_neigh = np.bincount(j_list, minlength=num_nodes)
         neigh_types = [mace_atomic_numbers.index(ase_atomic_numbers[j]) for j in j_list]
-- 
2.43.0


From 25defafdde53695f4108a680f3e26520d93ec478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:26 +0000
Subject: [PATCH 05/22] fix: ASE calculator no longer needs a volume for energy
 and forces

---
 symmetrix/source/symmetrix/symmetrix_calc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/symmetrix/source/symmetrix/symmetrix_calc.py b/symmetrix/source/symmetrix/symmetrix_calc.py
index a18e80a..1de2027 100755
--- a/symmetrix/source/symmetrix/symmetrix_calc.py
+++ b/symmetrix/source/symmetrix/symmetrix_calc.py
@@ -98,5 +98,6 @@ class Symmetrix(Calculator):
 
         self.results['forces'] = atom_forces
 
-        # stress from pair_forces
-        self.results['stress'] = full_3x3_to_voigt_6_stress((-pair_forces.T @ xyz)  / self.atoms.get_volume())
+        # stress from pair_forces, defined only for a three-dimensional cell
+        if self.atoms.cell.rank == 3:
+            self.results['stress'] = full_3x3_to_voigt_6_stress((-pair_forces.T @ xyz)  / self.atoms.get_volume())
-- 
2.43.0


From 82339dba0670530968a5d72b3445527d156334ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:26 +0000
Subject: [PATCH 06/22] fix: flush the converted model before the evaluator
 reads it

---
 symmetrix/source/symmetrix/symmetrix_calc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/symmetrix/source/symmetrix/symmetrix_calc.py b/symmetrix/source/symmetrix/symmetrix_calc.py
index 1de2027..df098a2 100755
--- a/symmetrix/source/symmetrix/symmetrix_calc.py
+++ b/symmetrix/source/symmetrix/symmetrix_calc.py
@@ -65,6 +65,7 @@ class Symmetrix(Calculator):
             with NamedTemporaryFile("w") as fout:
                 logging.warning(f"Converting via NamedTemporaryFile {fout.name}")
                 fout.write(json.dumps(data))
+                fout.flush()
                 self.evaluator = MACE(fout.name)
 
         self.cutoff = self.evaluator.r_cut
-- 
2.43.0


From cdb38b35c8237bbd06453495f9293a1c6418444b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:35 +0000
Subject: [PATCH 07/22] fix: species is optional when extracting, as its
 handling of None intends

---
 symmetrix/source/symmetrix/extract_mace_data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/symmetrix/source/symmetrix/extract_mace_data.py b/symmetrix/source/symmetrix/extract_mace_data.py
index 143c878..298da5f 100755
--- a/symmetrix/source/symmetrix/extract_mace_data.py
+++ b/symmetrix/source/symmetrix/extract_mace_data.py
@@ -16,7 +16,7 @@ from mace.tools.scripts_utils import remove_pt_head
 
 from ase.data import chemical_symbols
 
-def extract_mace_data(model, species, head=None, num_spline_points=256):
+def extract_mace_data(model, species=None, head=None, num_spline_points=256):
     """Extract data from pytorch model file into structure that can be
     written as symmetrix JSON data file
 
@@ -24,8 +24,8 @@ def extract_mace_data(model, species, head=None, num_spline_points=256):
     ----------
     model: str / Path
         path to pytorch model file
-    species: list(int / str)
-        list of atomic numbers or chemical symbols to extract
+    species: list(int / str), default None
+        list of atomic numbers or chemical symbols to extract, default all of the model
     head: str, default None
         head to keep, if multihead model, default same as mace.tools.scripts_utils.remove_pt_head
     num_spline_points: int, default 256
-- 
2.43.0


From 74372b7bfdbb9412ad60cb2adaf9bc3a5b720b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:23 +0000
Subject: [PATCH 08/22] fix: pair_coeff of symmetrix/mace needs one element per
 atom type

With fewer elements than atom types the type map was read past its end
(and a missing file name past the argument list).
---
 pair_symmetrix/pair_symmetrix_mace.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pair_symmetrix/pair_symmetrix_mace.cpp b/pair_symmetrix/pair_symmetrix_mace.cpp
index f16cf66..a7bbc1f 100644
--- a/pair_symmetrix/pair_symmetrix_mace.cpp
+++ b/pair_symmetrix/pair_symmetrix_mace.cpp
@@ -114,6 +114,8 @@ void PairSymmetrixMACE::settings(int narg, char **arg)
 
 void PairSymmetrixMACE::coeff(int narg, char **arg)
 {
+  if (narg != 3 + atom->ntypes) error->all(FLERR, "Incorrect args for pair coefficients");
+
   if (!allocated) allocate();
 
   utils::logmesg(lmp, "Loading MACE model from \'{}\' ... ", arg[2]);
-- 
2.43.0


From 0c3f4bdeb3b0438eea27f16aeb7a34255b35a0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:23 +0000
Subject: [PATCH 09/22] fix: message size of symmetrix/mace follows the mode

It was set in pair_coeff only, so that giving pair_style again with
another mode afterwards left it stale and messages were truncated.
---
 pair_symmetrix/pair_symmetrix_mace.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pair_symmetrix/pair_symmetrix_mace.cpp b/pair_symmetrix/pair_symmetrix_mace.cpp
index a7bbc1f..788e06e 100644
--- a/pair_symmetrix/pair_symmetrix_mace.cpp
+++ b/pair_symmetrix/pair_symmetrix_mace.cpp
@@ -40,7 +40,7 @@ PairSymmetrixMACE::PairSymmetrixMACE(LAMMPS *lmp)
   manybody_flag = 1;
   no_virial_fdotr_compute = 1;
   // WARNING: for mace, these variables are model-dependent, so i 
-  //          reset them after the model is loaded (in coeff).
+  //          reset them after the model is loaded (in init_style).
   //          however, i can't make them zero here, because that 
   //          confusingly yields seg faults with hybrid/overlay.
   //          so, i set them to a fairly big number here and hope.
@@ -140,15 +140,6 @@ void PairSymmetrixMACE::coeff(int narg, char **arg)
     mace_types.push_back(mace_index);
   }
 
-  // set message size
-  if (mode == "mpi_message_passing") {
-    comm_forward = mace->num_LM*mace->num_channels;
-    comm_reverse = mace->num_LM*mace->num_channels;
-  } else {
-    comm_forward = 0;
-    comm_reverse = 0;
-  }
-
   for (int i=1; i<atom->ntypes+1; i++)
     for (int j=i; j<atom->ntypes+1; j++)
       setflag[i][j] = 1;
@@ -174,6 +165,15 @@ void PairSymmetrixMACE::init_style()
   if (atom->map_user == atom->MAP_NONE) error->all(FLERR, "symmetrix/mace requires \'atom_modify map [yes|array|hash]\'");
   if (force->newton_pair == 0) error->all(FLERR, "symmetrix/mace requires newton pair on");
 
+  // set message size
+  if (mode == "mpi_message_passing") {
+    comm_forward = mace->num_LM*mace->num_channels;
+    comm_reverse = mace->num_LM*mace->num_channels;
+  } else {
+    comm_forward = 0;
+    comm_reverse = 0;
+  }
+
   if (mode == "no_domain_decomposition" or mode == "mpi_message_passing") {
     neighbor->add_request(this, NeighConst::REQ_FULL);
   } else {
-- 
2.43.0


From c5b369ff5824cc7a91342e0896471077a04976e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:27 +0000
Subject: [PATCH 10/22] fix: MACEKokkos sizes its monomial tables by the
 model's longest monomial

The width was hard-coded to 3, so loading a model whose products have a
correlation order above 3 wrote past the end of the tables.
---
 libsymmetrix/source/mace_kokkos.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libsymmetrix/source/mace_kokkos.cpp b/libsymmetrix/source/mace_kokkos.cpp
index 80ba9bd..8353546 100644
--- a/libsymmetrix/source/mace_kokkos.cpp
+++ b/libsymmetrix/source/mace_kokkos.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <fstream>
 #include <numbers>
 
@@ -1667,9 +1668,12 @@ void MACEKokkos<Precision>::load_from_json(std::string filename)
                 for (int w=0; w<M0_monomials_file[std::to_string(LM)].size(); ++w)
                     h_M0_weights_LM(a,k,w) = M0_weights_file[std::to_string(a)][std::to_string(LM)][std::to_string(k)][w];
         Kokkos::deep_copy(M0_weights(LM), h_M0_weights_LM);
+        size_t max_monomial_size = 0;
+        for (auto& monomial : M0_monomials_file[std::to_string(LM)])
+            max_monomial_size = std::max(max_monomial_size, monomial.size());
         M0_monomials(LM) = Kokkos::View<int**,Kokkos::LayoutRight>(
             Kokkos::view_alloc(std::string("M0_monomials_") + std::to_string(LM), Kokkos::WithoutInitializing),
-            M0_monomials_file[std::to_string(LM)].size(), 3);// TODO: hardcoded 3
+            M0_monomials_file[std::to_string(LM)].size(), max_monomial_size);
         auto h_M0_monomials_LM = Kokkos::create_mirror_view(M0_monomials(LM));
         Kokkos::deep_copy(h_M0_monomials_LM, -1);
         for (int i=0; i<M0_monomials_file[std::to_string(LM)].size(); ++i) {
@@ -1825,7 +1829,10 @@ void MACEKokkos<Precision>::load_from_json(std::string filename)
                 h_M1_weights(a,k,w) = M1_weights[std::to_string(a)][std::to_string(k)][w];
     Kokkos::deep_copy(this->M1_weights, h_M1_weights);
     auto M1_monomials = file["M1_monomials"].get<std::vector<std::vector<int>>>();
-    Kokkos::resize(this->M1_monomials, num_terms, 3);// TODO: hardcoded 3
+    size_t max_monomial_size = 0;
+    for (auto& monomial : M1_monomials)
+        max_monomial_size = std::max(max_monomial_size, monomial.size());
+    Kokkos::resize(this->M1_monomials, num_terms, max_monomial_size);
     auto h_M1_monomials = Kokkos::create_mirror_view(this->M1_monomials);
     Kokkos::deep_copy(h_M1_monomials, -1);
     for (int i=0; i<num_terms; ++i)
-- 
2.43.0


From 03f7ba872bb599a485d42da185958c2e29e3ef65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:44 +0000
Subject: [PATCH 11/22] fix: CubicSplineKokkos reads its coefficients from the
 device and checks its range

The evaluate functions read a mirror that had never been copied to, which
on a device with its own memory holds no coefficients, and they accepted
distances beyond the last interval and below zero.
---
 libsymmetrix/source/cubic_spline_kokkos.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libsymmetrix/source/cubic_spline_kokkos.cpp b/libsymmetrix/source/cubic_spline_kokkos.cpp
index 882788b..b9cf2a2 100644
--- a/libsymmetrix/source/cubic_spline_kokkos.cpp
+++ b/libsymmetrix/source/cubic_spline_kokkos.cpp
@@ -27,7 +27,7 @@ double CubicSplineKokkos::evaluate(double r)
 {
     const int i = static_cast<int>(r / h);
     // TODO: something better with this bounds checking
-    if (i < 0 || i >= num_coeffs / 4)
+    if (r < 0 || i < 0 || i >= num_coeffs / 4)
         throw std::invalid_argument("Out of bounds in CubicSplineKokkos::evaluate.");
     
     const double x = r - h * i;
@@ -35,7 +35,7 @@ double CubicSplineKokkos::evaluate(double r)
     const double xxx = xx * x;
     const int i4 = 4 * i;
 
-    auto h_c = Kokkos::create_mirror_view(c);
+    auto h_c = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), c);
     
     double ret = 0;
     const double c0 = h_c(i4);
@@ -51,7 +51,7 @@ std::tuple<double, double> CubicSplineKokkos::evaluate_deriv(double r)
 {
     const int i = static_cast<int>(r / h);
     // TODO: something better with this bounds checking
-    if (i < 0 || i > num_coeffs / 4)
+    if (r < 0 || i < 0 || i >= num_coeffs / 4)
         throw std::invalid_argument("Out of bounds in CubicSplineKokkos::evaluate_deriv.");
 
     const double x = r - h * i;
@@ -59,7 +59,7 @@ std::tuple<double, double> CubicSplineKokkos::evaluate_deriv(double r)
     const double xxx = xx * x;
     const int i4 = 4 * i;
 
-    auto h_c = Kokkos::create_mirror_view(c);
+    auto h_c = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), c);
 
     const double c0 = h_c(i4);
     const double c1 = h_c(i4 + 1);
@@ -76,7 +76,7 @@ std::tuple<double,double> CubicSplineKokkos::evaluate_deriv_divided(double r)
 {
     const int i = static_cast<int>(r / h);
     // TODO: something better with this bounds checking
-    if (i<0 or i> num_coeffs)
+    if (r < 0 or i<0 or i >= num_coeffs/4)
         throw std::invalid_argument("Out of bounds in CubicSplineKokkos::evaluate_deriv.");
 
     const double x = r - h*i;
@@ -84,7 +84,7 @@ std::tuple<double,double> CubicSplineKokkos::evaluate_deriv_divided(double r)
     const double xxx = xx*x;
     const int i4 = 4*i;
 
-    auto h_c = Kokkos::create_mirror_view(c);
+    auto h_c = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), c);
 
     const double c0 = h_c(i4);
     const double c1 = h_c(i4+1);
-- 
2.43.0


From eda0668f89c158da9d8c6a900688c440bc9ca59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:44 +0000
Subject: [PATCH 12/22] fix: CubicSplineSetKokkos rejects distances outside its
 range

As CubicSplineSet does; before, the kernel read outside the coefficients.
---
 libsymmetrix/source/cubic_spline_set_kokkos.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libsymmetrix/source/cubic_spline_set_kokkos.cpp b/libsymmetrix/source/cubic_spline_set_kokkos.cpp
index 08c7484..666f1d6 100644
--- a/libsymmetrix/source/cubic_spline_set_kokkos.cpp
+++ b/libsymmetrix/source/cubic_spline_set_kokkos.cpp
@@ -1,3 +1,4 @@
+#include <stdexcept>
 #include <vector>
 
 #include "cubic_spline_set_kokkos.hpp"
@@ -74,8 +75,9 @@ void CubicSplineSetKokkos::evaluate(
     double r,
     Kokkos::View<double*> values)
 {
-    // TODO: bounds checking
     const int i = static_cast<int>(r / h);
+    if (r<0 or i<0 or i>=num_nodes-1)
+        throw std::invalid_argument("Out of bounds in CubicSplineSetKokkos::evaluate.");
     const double x = r - h*i;
     const double xx = x*x;
     const double xxx = xx*x;
@@ -96,8 +98,9 @@ void CubicSplineSetKokkos::evaluate_derivs(double r,
                                            Kokkos::View<double*> values,
                                            Kokkos::View<double*> derivs) const
 {
-    // TODO: bounds checking
     const int i = static_cast<int>(r / h);
+    if (r<0 or i<0 or i>=num_nodes-1)
+        throw std::invalid_argument("Out of bounds in CubicSplineSetKokkos::evaluate_derivs.");
     const double x = r - h*i;
     const double xx = x*x;
     const double xxx = xx*x;
-- 
2.43.0


From 4e4e9bc592cbb828758dc8f1abcbddd2ef3f2a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:44 +0000
Subject: [PATCH 13/22] fix: MultivariatePolynomialKokkos with no monomials

The graph's nodes include the single variables, which were written into a
table of width zero.
---
 libsymmetrix/source/multivariate_polynomial_kokkos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsymmetrix/source/multivariate_polynomial_kokkos.cpp b/libsymmetrix/source/multivariate_polynomial_kokkos.cpp
index f587a28..f510e47 100644
--- a/libsymmetrix/source/multivariate_polynomial_kokkos.cpp
+++ b/libsymmetrix/source/multivariate_polynomial_kokkos.cpp
@@ -14,7 +14,7 @@ MultivariatePolynomialKokkos::MultivariatePolynomialKokkos(
     // set num_variables, coefficients, and monomials
     this->num_variables = num_variables;
     set_kokkos_view(this->coefficients, coefficients);
-    int max_monomial_size = 0;
+    int max_monomial_size = 1;  // the graph always holds the single variables
     for (auto m : monomials)
         if (m.size() > max_monomial_size)
             max_monomial_size = m.size();
-- 
2.43.0


From b654f963fbfd80c151a672427e388dd51682392b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:07 +0000
Subject: [PATCH 14/22] fix: calculator reports one energy per atom with the
 Kokkos evaluators

Their node_energies keeps the size of the largest structure so far.
---
 symmetrix/source/symmetrix/symmetrix_calc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/symmetrix/source/symmetrix/symmetrix_calc.py b/symmetrix/source/symmetrix/symmetrix_calc.py
index df098a2..a82ca9f 100755
--- a/symmetrix/source/symmetrix/symmetrix_calc.py
+++ b/symmetrix/source/symmetrix/symmetrix_calc.py
@@ -83,8 +83,10 @@ class Symmetrix(Calculator):
         self.evaluator.compute_node_energies_forces(
             num_nodes, node_types, num_neigh, j_list, neigh_types, xyz.flatten(), r)
 
-        self.results['energy'] = self.results['free_energy'] = np.sum(self.evaluator.node_energies)
-        self.results['energies'] = np.asarray(self.evaluator.node_energies)
+        # as `evaluator.node_forces` below, `evaluator.node_energies` can be larger than the number of atoms
+        node_energies = np.asarray(self.evaluator.node_energies)[:num_nodes]
+        self.results['energy'] = self.results['free_energy'] = np.sum(node_energies)
+        self.results['energies'] = node_energies
 
         pair_forces = np.asarray(self.evaluator.node_forces).reshape((-1, 3))
         pair_forces = pair_forces[:len(i_list), :]  # currently, `evaluator.node_forces` is a container
-- 
2.43.0


From c3aac7422318d512c19da6bfffc005b7363e0a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:06 +0000
Subject: [PATCH 15/22] fix: pair_coeff of symmetrix/mace/kk holds one element
 per atom type

The type map was sized by the model's elements: with more atom types than
elements it was written, with fewer arguments than types read, past its end.
---
 pair_symmetrix/pair_symmetrix_mace_kokkos.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
index ae555e1..4269dbf 100644
--- a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
+++ b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
@@ -131,6 +131,8 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::settings(int narg, char **a
 template<class DeviceType, typename Precision>
 void PairSymmetrixMACEKokkos<DeviceType, Precision>::coeff(int narg, char **arg)
 {
+  if (narg != 3 + atom->ntypes) error->all(FLERR, "Incorrect args for pair coefficients");
+
   if (!allocated) allocate();
 
   utils::logmesg(lmp, "Loading MACEKokkos model from \'{}\' ... ", arg[2]);
@@ -138,7 +140,7 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::coeff(int narg, char **arg)
   utils::logmesg(lmp, "success\n");
 
   // extract atomic numbers from pair_coeff
-  mace_types = Kokkos::View<int*>("mace_types", mace->atomic_numbers.size());
+  mace_types = Kokkos::View<int*>("mace_types", atom->ntypes);
   auto h_mace_types = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), mace_types);
   auto h_mace_atomic_numbers = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), mace->atomic_numbers);
   for (int i=3; i<narg; ++i) {
-- 
2.43.0


From 8f254c7d802811d8474a8457c279c3d8088315d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:06 +0000
Subject: [PATCH 16/22] fix: symmetrix/mace/kk rejects elements the model does
 not have

They were mapped to element -1, with which the evaluator reads outside its
tables; symmetrix/mace reports the error.
---
 pair_symmetrix/pair_symmetrix_mace_kokkos.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
index 4269dbf..8ef5eff 100644
--- a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
+++ b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
@@ -154,6 +154,8 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::coeff(int narg, char **arg)
     for (int j=0; j<mace->atomic_numbers.size(); ++j)
         if (h_mace_atomic_numbers(j) == atomic_number)
             mace_index = j;
+    if (mace_index < 0)
+      error->all(FLERR, "Problem matching LAMMPS types to MACE types.");
     utils::logmesg(lmp, "  mapping LAMMPS type {} ({}) to MACEKokkos type {}\n",
                    i-2, arg[i], mace_index);
     h_mace_types(i-3) = mace_index;
-- 
2.43.0


From 8a11dee422a51ba4dd6a5be27361d7720ac3fcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:06 +0000
Subject: [PATCH 17/22] fix: message size of symmetrix/mace/kk follows the mode

It was set in pair_coeff only, so that giving pair_style again with
another mode afterwards left it stale and messages were truncated.
---
 pair_symmetrix/pair_symmetrix_mace_kokkos.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
index 8ef5eff..8d08ec3 100644
--- a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
+++ b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
@@ -162,15 +162,6 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::coeff(int narg, char **arg)
   }
   Kokkos::deep_copy(mace_types, h_mace_types);
 
-  // set message size
-  if (mode == "mpi_message_passing") {
-    comm_forward = mace->num_LM*mace->num_channels;
-    comm_reverse = mace->num_LM*mace->num_channels;
-  } else {
-    comm_forward = 0;
-    comm_reverse = 0;
-  }
-
   for (int i=1; i<atom->ntypes+1; i++)
     for (int j=i; j<atom->ntypes+1; j++)
       setflag[i][j] = 1;
@@ -198,6 +189,15 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::init_style()
   if (atom->map_user == atom->MAP_NONE) error->all(FLERR, "symmetrix/mace/kk requires \'atom_modify map [yes|array|hash]\'");
   if (force->newton_pair == 0) error->all(FLERR, "symmetrix/mace/kk requires newton pair on");
 
+  // set message size
+  if (mode == "mpi_message_passing") {
+    comm_forward = mace->num_LM*mace->num_channels;
+    comm_reverse = mace->num_LM*mace->num_channels;
+  } else {
+    comm_forward = 0;
+    comm_reverse = 0;
+  }
+
   if (mode == "no_domain_decomposition" or mode == "mpi_message_passing") {
     auto request = neighbor->add_request(this, NeighConst::REQ_FULL);
     request->set_kokkos_host(std::is_same_v<DeviceType,LMPHostType> &&
-- 
2.43.0


From aa23885e79b9ec37d7ef6d64269ce50dbc785d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:06 +0000
Subject: [PATCH 18/22] fix: host unpacking in symmetrix/mace/kk keeps the
 other atoms' values

On a device with its own memory the mirror started empty, so copying it back
erased every value that was not part of the message (the trouble noted with
comm/pair/reverse no).
---
 pair_symmetrix/pair_symmetrix_mace_kokkos.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
index 8d08ec3..4522cb0 100644
--- a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
+++ b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
@@ -265,7 +265,7 @@ int PairSymmetrixMACEKokkos<DeviceType, Precision>::pack_forward_comm_kokkos(
 template<class DeviceType, typename Precision>
 void PairSymmetrixMACEKokkos<DeviceType, Precision>::unpack_forward_comm(int n, int first, double *buf)
 {
-  auto h_H1 = Kokkos::create_mirror_view(H1);
+  auto h_H1 = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), H1);
   for (int i=0; i<n; ++i) {
     for (int LM=0; LM<mace->num_LM; ++LM) {
       for (int k=0; k<mace->num_channels; ++k) {
@@ -337,7 +337,7 @@ int PairSymmetrixMACEKokkos<DeviceType, Precision>::pack_reverse_comm_kokkos(
 template<class DeviceType, typename Precision>
 void PairSymmetrixMACEKokkos<DeviceType, Precision>::unpack_reverse_comm(int n, int *list, double *buf)
 {
-  auto h_H1_adj = Kokkos::create_mirror_view(H1_adj);
+  auto h_H1_adj = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), H1_adj);
   for (int ii=0; ii<n; ++ii) {
     const int i = list[ii];
     for (int LM=0; LM<mace->num_LM; ++LM) {
-- 
2.43.0


From a04f4eb253b8dd6b13f2f6f9f09fd0cf0fbd7266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:17 +0000
Subject: [PATCH 19/22] fix: per-atom energies of symmetrix/mace/kk start from
 zero and reach the host

They were added to those of earlier steps, since nothing cleared the array
unless it grew, and on a device with its own memory the host copy LAMMPS
reads was never updated.
---
 pair_symmetrix/pair_symmetrix_mace_kokkos.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
index 4522cb0..0017d36 100644
--- a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
+++ b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
@@ -506,11 +506,13 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::compute_no_domain_decomposi
 
   if (eflag_atom) {
     auto d_eatom = k_eatom.template view<DeviceType>();
+    Kokkos::deep_copy(d_eatom, 0.0);
     auto node_energies = mace->node_energies;
     Kokkos::parallel_for("PairSymmetrixMACEKokkos::extract_atomic_energies", num_nodes, KOKKOS_LAMBDA (const int ii) {
         d_eatom(ii) += node_energies(ii);
     });
     k_eatom.modify<DeviceType>();
+    k_eatom.sync_host();
   }
 
   auto mace_node_forces = mace->node_forces;
@@ -772,11 +774,13 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::compute_mpi_message_passing
 
   if (eflag_atom) {
     auto d_eatom = k_eatom.template view<DeviceType>();
+    Kokkos::deep_copy(d_eatom, 0.0);
     auto node_energies = mace->node_energies;
     Kokkos::parallel_for("Extract Atomic Energies", num_nodes, KOKKOS_LAMBDA (const int ii) {
         d_eatom(ii) += node_energies(ii);
     });
     k_eatom.modify<DeviceType>();
+    k_eatom.sync_host();
   }
 
   auto mace_node_forces = mace->node_forces;
@@ -1100,11 +1104,13 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::compute_no_mpi_message_pass
 
   if (eflag_atom) {
     auto d_eatom = k_eatom.template view<DeviceType>();
+    Kokkos::deep_copy(d_eatom, 0.0);
     auto node_energies = mace->node_energies;
     Kokkos::parallel_for("extract atomic energies", num_local_nodes, KOKKOS_LAMBDA (const int ii) {
         d_eatom(ii) += node_energies(ii);
     });
     k_eatom.modify<DeviceType>();
+    k_eatom.sync_host();
   }
 
   auto mace_node_forces = mace->node_forces;
-- 
2.43.0


From 2bfe26ca30fee0f11e2d7281d931e684941ee4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:28 +0000
Subject: [PATCH 20/22] fix: symmetrix/mace/kk resizes its messages for a new
 model

After a second pair_coeff with a model of another size the array kept the
first model's shape.
---
 pair_symmetrix/pair_symmetrix_mace_kokkos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
index 0017d36..fcef444 100644
--- a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
+++ b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
@@ -719,7 +719,7 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::compute_mpi_message_passing
   mace->compute_H1(num_nodes);
 
   // sort H1 contributions by i (rather than ii)
-  if (H1.extent(0) < k_list->inum+atom->nghost)
+  if (H1.extent(0) < k_list->inum+atom->nghost || H1.extent(1) != mace->num_LM || H1.extent(2) != mace->num_channels)
     Kokkos::realloc(H1, (k_list->inum+atom->nghost), mace->num_LM, mace->num_channels);
   auto num_LM = mace->num_LM;
   auto num_channels = mace->num_channels;
-- 
2.43.0


From f805430e562fddfba8f25b9997423d4ff92d05ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:30 +0000
Subject: [PATCH 21/22] fix:
 MultivariatePolynomialKokkos::evaluate_gradient_simple adds into the gradient
 atomically

---
 libsymmetrix/source/multivariate_polynomial_kokkos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsymmetrix/source/multivariate_polynomial_kokkos.cpp b/libsymmetrix/source/multivariate_polynomial_kokkos.cpp
index f510e47..c7d3895 100644
--- a/libsymmetrix/source/multivariate_polynomial_kokkos.cpp
+++ b/libsymmetrix/source/multivariate_polynomial_kokkos.cpp
@@ -121,7 +121,7 @@ double MultivariatePolynomialKokkos::evaluate_gradient_simple(
                     if (j == k) continue;
                     monomial_deriv *= x(monomials(i,k));
                 }
-                g(monomials(i,j)) += coefficients(i) * monomial_deriv;
+                Kokkos::atomic_add(&g(monomials(i,j)), coefficients(i) * monomial_deriv);
             }
         });
     return f;
-- 
2.43.0


From 145477b548e2833fc039236a5401c2727fe5808f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:22 +0000
Subject: [PATCH 22/22] fix: MACE and MACEKokkos bindings read strided numpy
 arrays as if they were contiguous

---
 symmetrix/source/cpp/mace.cpp             | 112 ++++++++--------
 symmetrix/source/cpp/mace_kokkos.cpp      | 148 +++++++++++-----------
 symmetrix/source/cpp/utilities_kokkos.hpp |  16 +--
 3 files changed, 142 insertions(+), 134 deletions(-)

diff --git a/symmetrix/source/cpp/mace.cpp b/symmetrix/source/cpp/mace.cpp
index 74765cd..df4e5b1 100644
--- a/symmetrix/source/cpp/mace.cpp
+++ b/symmetrix/source/cpp/mace.cpp
@@ -7,6 +7,10 @@
 
 namespace py = pybind11;
 
+// the data are read as a plain block of memory, so views with other strides have to be copied
+template <typename T>
+using contiguous_array = py::array_t<T, py::array::c_style | py::array::forcecast>;
+
 void bind_mace(py::module_ &m)
 {
     py::class_<MACE>(m, "MACE")
@@ -34,12 +38,12 @@ void bind_mace(py::module_ &m)
         .def_readwrite("H2_adj", &MACE::H2_adj)
         .def("compute_node_energies_forces",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> node_types,
-                           py::array_t<int> num_neigh,
-                           py::array_t<int> neigh_indices,
-                           py::array_t<int> neigh_types,
-                           py::array_t<double> xyz,
-                           py::array_t<double> r) {
+                           contiguous_array<int> node_types,
+                           contiguous_array<int> num_neigh,
+                           contiguous_array<int> neigh_indices,
+                           contiguous_array<int> neigh_types,
+                           contiguous_array<double> xyz,
+                           contiguous_array<double> r) {
                 self.compute_node_energies_forces(
                            num_nodes, 
                            std::span<const int>(node_types.data(), node_types.size()),
@@ -52,10 +56,10 @@ void bind_mace(py::module_ &m)
         .def("compute_R0",
             [] (MACE& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> r) {
+                    contiguous_array<int> node_types,
+                    contiguous_array<int> num_neigh,
+                    contiguous_array<int> neigh_types,
+                    contiguous_array<double> r) {
                 self.compute_R0(
                     num_nodes,
                     std::span<const int>(node_types.data(), node_types.size()),
@@ -66,10 +70,10 @@ void bind_mace(py::module_ &m)
         .def("compute_R1",
             [] (MACE& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> r) {
+                    contiguous_array<int> node_types,
+                    contiguous_array<int> num_neigh,
+                    contiguous_array<int> neigh_types,
+                    contiguous_array<double> r) {
                 self.compute_R1(
                     num_nodes,
                     std::span<const int>(node_types.data(), node_types.size()),
@@ -78,15 +82,15 @@ void bind_mace(py::module_ &m)
                     std::span<const double>(r.data(), r.size()));
             })
         .def("compute_Y",
-            [](MACE& self, py::array_t<double> xyz) {
+            [](MACE& self, contiguous_array<double> xyz) {
                 self.compute_Y(std::span<const double>(xyz.data(), xyz.size()));
             })
         .def("compute_A0",
             [](MACE& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types) {
+                    contiguous_array<int> node_types,
+                    contiguous_array<int> num_neigh,
+                    contiguous_array<int> neigh_types) {
                 self.compute_A0(
                     num_nodes,
                     std::span<const int>(node_types.data(), node_types.size()),
@@ -95,11 +99,11 @@ void bind_mace(py::module_ &m)
             })
         .def("reverse_A0",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> node_types,
-                           py::array_t<int> num_neigh,
-                           py::array_t<int> neigh_types,
-                           py::array_t<double> xyz,
-                           py::array_t<double> r) {
+                           contiguous_array<int> node_types,
+                           contiguous_array<int> num_neigh,
+                           contiguous_array<int> neigh_types,
+                           contiguous_array<double> xyz,
+                           contiguous_array<double> r) {
                 self.reverse_A0(num_nodes, 
                                 std::span<const int>(node_types.data(), node_types.size()),
                                 std::span<const int>(num_neigh.data(), num_neigh.size()),
@@ -110,10 +114,10 @@ void bind_mace(py::module_ &m)
         .def("compute_A0_scaled",
             [](MACE& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> r) {
+                    contiguous_array<int> node_types,
+                    contiguous_array<int> num_neigh,
+                    contiguous_array<int> neigh_types,
+                    contiguous_array<double> r) {
                 self.compute_A0_scaled(
                     num_nodes,
                     std::span<const int>(node_types.data(), node_types.size()),
@@ -124,11 +128,11 @@ void bind_mace(py::module_ &m)
         .def("reverse_A0_scaled",
             [](MACE& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> xyz,
-                    py::array_t<double> r) {
+                    contiguous_array<int> node_types,
+                    contiguous_array<int> num_neigh,
+                    contiguous_array<int> neigh_types,
+                    contiguous_array<double> xyz,
+                    contiguous_array<double> r) {
                 self.reverse_A0_scaled(
                     num_nodes,
                     std::span<const int>(node_types.data(), node_types.size()),
@@ -139,13 +143,13 @@ void bind_mace(py::module_ &m)
             })
         .def("compute_M0",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> node_types) {
+                           contiguous_array<int> node_types) {
                 self.compute_M0(num_nodes, 
                                 std::span<const int>(node_types.data(), node_types.size()));
             })
         .def("reverse_M0",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> node_types) {
+                           contiguous_array<int> node_types) {
                 self.reverse_M0(num_nodes,
                                 std::span<const int>(node_types.data(), node_types.size()));
             })
@@ -153,18 +157,18 @@ void bind_mace(py::module_ &m)
         .def("reverse_H1", &MACE::reverse_H1)
         .def("compute_Phi1",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> num_neigh,
-                           py::array_t<int> neigh_indices) {
+                           contiguous_array<int> num_neigh,
+                           contiguous_array<int> neigh_indices) {
                 self.compute_Phi1(num_nodes, 
                                   std::span<const int>(num_neigh.data(), num_neigh.size()),
                                   std::span<const int>(neigh_indices.data(), neigh_indices.size()));
             })
         .def("reverse_Phi1",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> num_neigh,
-                           py::array_t<int> neigh_indices,
-                           py::array_t<double> xyz,
-                           py::array_t<double> r,
+                           contiguous_array<int> num_neigh,
+                           contiguous_array<int> neigh_indices,
+                           contiguous_array<double> xyz,
+                           contiguous_array<double> r,
                            bool zero_dxyz,
                            bool zero_H1_adj) {
                 self.reverse_Phi1(num_nodes, 
@@ -180,10 +184,10 @@ void bind_mace(py::module_ &m)
         .def("compute_A1_scaled",
             [](MACE& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> r) {
+                    contiguous_array<int> node_types,
+                    contiguous_array<int> num_neigh,
+                    contiguous_array<int> neigh_types,
+                    contiguous_array<double> r) {
                 self.compute_A1_scaled(
                     num_nodes,
                     std::span<const int>(node_types.data(), node_types.size()),
@@ -194,11 +198,11 @@ void bind_mace(py::module_ &m)
         .def("reverse_A1_scaled",
             [](MACE& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> xyz,
-                    py::array_t<double> r) {
+                    contiguous_array<int> node_types,
+                    contiguous_array<int> num_neigh,
+                    contiguous_array<int> neigh_types,
+                    contiguous_array<double> xyz,
+                    contiguous_array<double> r) {
                 self.reverse_A1_scaled(
                     num_nodes,
                     std::span<const int>(node_types.data(), node_types.size()),
@@ -209,26 +213,26 @@ void bind_mace(py::module_ &m)
             })
         .def("compute_M1",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> node_types) {
+                           contiguous_array<int> node_types) {
                 self.compute_M1(num_nodes, 
                                 std::span<const int>(node_types.data(), node_types.size()));
             })
 
         .def("reverse_M1",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> node_types) {
+                           contiguous_array<int> node_types) {
                 self.reverse_M1(num_nodes,
                                 std::span<const int>(node_types.data(), node_types.size()));
             })
         .def("compute_H2",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> node_types) {
+                           contiguous_array<int> node_types) {
                 self.compute_H2(num_nodes, 
                                 std::span<const int>(node_types.data(), node_types.size()));
             })
         .def("reverse_H2",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> node_types,
+                           contiguous_array<int> node_types,
                            bool zero_H1_adj) {
                 self.reverse_H2(num_nodes, 
                                 std::span<const int>(node_types.data(), node_types.size()),
@@ -236,7 +240,7 @@ void bind_mace(py::module_ &m)
             })
         .def("compute_readouts",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> node_types) {
+                           contiguous_array<int> node_types) {
                 self.compute_readouts(num_nodes, 
                                       std::span<const int>(node_types.data(), node_types.size()));
             });
diff --git a/symmetrix/source/cpp/mace_kokkos.cpp b/symmetrix/source/cpp/mace_kokkos.cpp
index b7d28d1..e440f58 100644
--- a/symmetrix/source/cpp/mace_kokkos.cpp
+++ b/symmetrix/source/cpp/mace_kokkos.cpp
@@ -8,6 +8,10 @@
 
 namespace py = pybind11;
 
+// the data are read as a plain block of memory, so views with other strides have to be copied
+template <typename T>
+using contiguous_array = py::array_t<T, py::array::c_style | py::array::forcecast>;
+
 template <typename Precision>
 void bind_mace_kokkos(py::module_ &m, const char* class_name)
 {
@@ -23,7 +27,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.node_energies);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<double> node_energies) {
+            [] (MACEKokkos<Precision>& self, contiguous_array<double> node_energies) {
                 set_kokkos_view(self.node_energies, node_energies);
             })
         // partial forces
@@ -31,19 +35,19 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.node_forces);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<double> node_forces) {
+            [] (MACEKokkos<Precision>& self, contiguous_array<double> node_forces) {
                 set_kokkos_view(self.node_forces, node_forces);
             })
         // node energies and forces
         .def("compute_node_energies_forces",
             [] (MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_indices,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> xyz,
-                    py::array_t<double> r) {
+                    contiguous_array<int> node_types,
+                    contiguous_array<int> num_neigh,
+                    contiguous_array<int> neigh_indices,
+                    contiguous_array<int> neigh_types,
+                    contiguous_array<double> xyz,
+                    contiguous_array<double> r) {
                 self.compute_node_energies_forces(
                     num_nodes, 
                     create_kokkos_view("node_types", node_types),
@@ -58,17 +62,17 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.R0);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> R0) {
+            [] (MACEKokkos<Precision>& self, contiguous_array<Precision> R0) {
                 const int total_num_neigh = R0.size()/((self.l_max+1)*self.num_channels);
                 set_kokkos_view(self.R0, R0, total_num_neigh, (self.l_max+1)*self.num_channels);
             })
         .def("compute_R0", 
             [](MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> r) {
+                    contiguous_array<int> node_types,
+                    contiguous_array<int> num_neigh,
+                    contiguous_array<int> neigh_types,
+                    contiguous_array<double> r) {
                 self.compute_R0(
                     num_nodes,
                     create_kokkos_view("node_types", node_types),
@@ -81,7 +85,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.R1);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> R1) {
+            [] (MACEKokkos<Precision>& self, contiguous_array<Precision> R1) {
                 const int num_le = self.Phi1_l.size();
                 const int total_num_neigh = R1.size()/(num_le*self.num_channels);
                 set_kokkos_view(self.R1, R1, total_num_neigh, num_le*self.num_channels);
@@ -89,10 +93,10 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("compute_R1", 
             [](MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> r) {
+                    contiguous_array<int> node_types,
+                    contiguous_array<int> num_neigh,
+                    contiguous_array<int> neigh_types,
+                    contiguous_array<double> r) {
                 self.compute_R1(
                     num_nodes,
                     create_kokkos_view("node_types", node_types),
@@ -103,7 +107,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         // Y
         .def("compute_Y",
             [] (MACEKokkos<Precision>& self,
-                    py::array_t<double> xyz) {
+                    contiguous_array<double> xyz) {
                 self.compute_Y(
                     create_kokkos_view("xyz", xyz));
             })
@@ -112,7 +116,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.A0);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> A0) {
+            [] (MACEKokkos<Precision>& self, contiguous_array<Precision> A0) {
                 const int num_nodes = A0.size()/(self.num_lm*self.num_channels);
                 set_kokkos_view(self.A0, A0, num_nodes, self.num_lm, self.num_channels);
             })
@@ -120,16 +124,16 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.A0_adj);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> A0_adj) {
+            [] (MACEKokkos<Precision>& self, contiguous_array<Precision> A0_adj) {
                 const int num_nodes = A0_adj.size()/(self.num_lm*self.num_channels);
                 set_kokkos_view(self.A0_adj, A0_adj, num_nodes, self.num_lm, self.num_channels);
             })
         .def("compute_A0",
             [] (MACEKokkos<Precision>& self,
                     int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types) {
+                    contiguous_array<int> node_types,
+                    contiguous_array<int> num_neigh,
+                    contiguous_array<int> neigh_types) {
                 self.compute_A0(
                     num_nodes,
                     create_kokkos_view("node_types", node_types),
@@ -139,11 +143,11 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("reverse_A0",
             [] (MACEKokkos<Precision>& self,
                     int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> xyz,
-                    py::array_t<double> r) {
+                    contiguous_array<int> node_types,
+                    contiguous_array<int> num_neigh,
+                    contiguous_array<int> neigh_types,
+                    contiguous_array<double> xyz,
+                    contiguous_array<double> r) {
                 self.reverse_A0(
                     num_nodes,
                     create_kokkos_view("node_types", node_types),
@@ -155,10 +159,10 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("compute_A0_scaled",
             [](MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> r) {
+                    contiguous_array<int> node_types,
+                    contiguous_array<int> num_neigh,
+                    contiguous_array<int> neigh_types,
+                    contiguous_array<double> r) {
                 self.compute_A0_scaled(
                     num_nodes,
                     create_kokkos_view("node_types", node_types),
@@ -169,11 +173,11 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("reverse_A0_scaled",
             [](MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> xyz,
-                    py::array_t<double> r) {
+                    contiguous_array<int> node_types,
+                    contiguous_array<int> num_neigh,
+                    contiguous_array<int> neigh_types,
+                    contiguous_array<double> xyz,
+                    contiguous_array<double> r) {
                 self.reverse_A0_scaled(
                     num_nodes,
                     create_kokkos_view("node_types", node_types),
@@ -187,7 +191,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.M0);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> M0) {
+            [] (MACEKokkos<Precision>& self, contiguous_array<Precision> M0) {
                 const int num_nodes = M0.size()/(self.num_LM*self.num_channels);
                 set_kokkos_view(self.M0, M0, num_nodes, self.num_LM, self.num_channels);
             })
@@ -195,14 +199,14 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.M0_adj);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> M0_adj) {
+            [] (MACEKokkos<Precision>& self, contiguous_array<Precision> M0_adj) {
                 const int num_nodes = M0_adj.size()/(self.num_LM*self.num_channels);
                 set_kokkos_view(self.M0_adj, M0_adj, num_nodes, self.num_LM, self.num_channels);
             })
         .def("compute_M0",
             [] (MACEKokkos<Precision>& self,
                     int num_nodes,
-                    py::array_t<int> node_types) {
+                    contiguous_array<int> node_types) {
                 self.compute_M0(
                     num_nodes,
                     create_kokkos_view("node_types", node_types));
@@ -210,7 +214,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("reverse_M0",
             [] (MACEKokkos<Precision>& self,
                     int num_nodes,
-                    py::array_t<int> node_types) {
+                    contiguous_array<int> node_types) {
                 self.reverse_M0(
                     num_nodes,
                     create_kokkos_view("node_types", node_types));
@@ -220,7 +224,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.H1);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> H1) {
+            [] (MACEKokkos<Precision>& self, contiguous_array<Precision> H1) {
                 const int num_nodes = H1.size()/(self.num_LM*self.num_channels);
                 set_kokkos_view(self.H1, H1, num_nodes, self.num_LM, self.num_channels);
             })
@@ -228,7 +232,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.H1_adj);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> H1_adj) {
+            [] (MACEKokkos<Precision>& self, contiguous_array<Precision> H1_adj) {
                 const int num_nodes = H1_adj.size()/(self.num_LM*self.num_channels);
                 set_kokkos_view(self.H1_adj, H1_adj, num_nodes, self.num_LM, self.num_channels);
             })
@@ -239,7 +243,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.Phi1);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> Phi1) {
+            [] (MACEKokkos<Precision>& self, contiguous_array<Precision> Phi1) {
                 const int num_nodes = Phi1.size()/(self.num_lme*self.num_channels);
                 set_kokkos_view(self.Phi1, Phi1, num_nodes, self.num_lme, self.num_channels);
             })
@@ -247,15 +251,15 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.dPhi1);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> dPhi1) {
+            [] (MACEKokkos<Precision>& self, contiguous_array<Precision> dPhi1) {
                 const int num_nodes = dPhi1.size()/(self.num_lme*self.num_channels);
                 set_kokkos_view(self.dPhi1, dPhi1, num_nodes, self.num_lme, self.num_channels);
             })
         .def("compute_Phi1",
             [] (MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types) {
+                    contiguous_array<int> num_neigh,
+                    contiguous_array<int> neigh_types) {
                 self.compute_Phi1(
                     num_nodes,
                     create_kokkos_view("num_neigh", num_neigh),
@@ -264,10 +268,10 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("reverse_Phi1",
             [] (MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_indices,
-                    py::array_t<double> xyz,
-                    py::array_t<double> r,
+                    contiguous_array<int> num_neigh,
+                    contiguous_array<int> neigh_indices,
+                    contiguous_array<double> xyz,
+                    contiguous_array<double> r,
                     bool zero_dxyz,
                     bool zero_H1_adj) {
                 self.reverse_Phi1(
@@ -284,7 +288,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.A1);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> A1) {
+            [] (MACEKokkos<Precision>& self, contiguous_array<Precision> A1) {
                 const int num_nodes = A1.size()/(self.num_lm*self.num_channels);
                 set_kokkos_view(self.A1, A1, num_nodes, self.num_lm, self.num_channels);
             })
@@ -292,7 +296,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.A1_adj);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> A1_adj) {
+            [] (MACEKokkos<Precision>& self, contiguous_array<Precision> A1_adj) {
                 const int num_nodes = A1_adj.size()/(self.num_lm*self.num_channels);
                 set_kokkos_view(self.A1_adj, A1_adj, num_nodes, self.num_lm, self.num_channels);
             })
@@ -307,10 +311,10 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("compute_A1_scaled",
             [](MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> r) {
+                    contiguous_array<int> node_types,
+                    contiguous_array<int> num_neigh,
+                    contiguous_array<int> neigh_types,
+                    contiguous_array<double> r) {
                 self.compute_A1_scaled(
                     num_nodes,
                     create_kokkos_view("node_types", node_types),
@@ -321,11 +325,11 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("reverse_A1_scaled",
             [](MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> xyz,
-                    py::array_t<double> r) {
+                    contiguous_array<int> node_types,
+                    contiguous_array<int> num_neigh,
+                    contiguous_array<int> neigh_types,
+                    contiguous_array<double> xyz,
+                    contiguous_array<double> r) {
                 self.reverse_A1_scaled(
                     num_nodes,
                     create_kokkos_view("node_types", node_types),
@@ -339,7 +343,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.M1);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> M1) {
+            [] (MACEKokkos<Precision>& self, contiguous_array<Precision> M1) {
                 const int num_nodes = M1.size()/(self.num_channels);
                 set_kokkos_view(self.M1, M1, num_nodes, self.num_channels);
             })
@@ -347,14 +351,14 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.M1_adj);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> M1_adj) {
+            [] (MACEKokkos<Precision>& self, contiguous_array<Precision> M1_adj) {
                 const int num_nodes = M1_adj.size()/(self.num_channels);
                 set_kokkos_view(self.M1_adj, M1_adj, num_nodes, self.num_channels);
             })
         .def("compute_M1",
             [] (MACEKokkos<Precision>& self,
                     int num_nodes,
-                    py::array_t<int> node_types) {
+                    contiguous_array<int> node_types) {
                 self.compute_M1(
                     num_nodes,
                     create_kokkos_view("node_types", node_types));
@@ -362,7 +366,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("reverse_M1",
             [] (MACEKokkos<Precision>& self,
                     int num_nodes,
-                    py::array_t<int> node_types) {
+                    contiguous_array<int> node_types) {
                 self.reverse_M1(
                     num_nodes,
                     create_kokkos_view("node_types", node_types));
@@ -372,7 +376,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.H2);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<double> H2) {
+            [] (MACEKokkos<Precision>& self, contiguous_array<double> H2) {
                 const int num_nodes = H2.size()/self.num_channels;
                 set_kokkos_view(self.H2, H2, num_nodes, self.num_channels);
             })
@@ -380,14 +384,14 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.H2_adj);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<double> H2_adj) {
+            [] (MACEKokkos<Precision>& self, contiguous_array<double> H2_adj) {
                 const int num_nodes = H2_adj.size()/self.num_channels;
                 set_kokkos_view(self.H2_adj, H2_adj, num_nodes, self.num_channels);
             })
         .def("compute_H2",
             [] (MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> node_types) {
+                    contiguous_array<int> node_types) {
                 self.compute_H2(
                     num_nodes,
                     create_kokkos_view("node_types", node_types));
@@ -395,7 +399,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("reverse_H2",
             [] (MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
+                    contiguous_array<int> node_types,
                     bool zero_H1_adj) {
                 self.reverse_H2(
                     num_nodes,
@@ -406,7 +410,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("compute_readouts",
             [] (MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> node_types) {
+                    contiguous_array<int> node_types) {
                 return self.compute_readouts(
                     num_nodes,
                     create_kokkos_view("node_types", node_types));
diff --git a/symmetrix/source/cpp/utilities_kokkos.hpp b/symmetrix/source/cpp/utilities_kokkos.hpp
index ada4de5..ec3946e 100644
--- a/symmetrix/source/cpp/utilities_kokkos.hpp
+++ b/symmetrix/source/cpp/utilities_kokkos.hpp
@@ -11,10 +11,10 @@
 
 namespace py = pybind11;
 
-template<typename T>
+template<typename T, int Flags>
 Kokkos::View<const T*> create_kokkos_view(
     std::string label,
-    py::array_t<T> array)
+    py::array_t<T,Flags> array)
 {
     return create_mirror_view_and_copy(
         Kokkos::DefaultExecutionSpace(),
@@ -22,10 +22,10 @@ Kokkos::View<const T*> create_kokkos_view(
         label);
 }
 
-template<typename T>
+template<typename T, int Flags>
 void set_kokkos_view(
     Kokkos::View<T*>& view,
-    py::array_t<T> array)
+    py::array_t<T,Flags> array)
 {
     auto d_array = Kokkos::create_mirror_view_and_copy(
         Kokkos::DefaultExecutionSpace(),
@@ -37,10 +37,10 @@ void set_kokkos_view(
     Kokkos::deep_copy(view, d_array);
 }
 
-template<typename T>
+template<typename T, int Flags>
 void set_kokkos_view(
     Kokkos::View<T**,Kokkos::LayoutRight>& view,
-    py::array_t<T> array,
+    py::array_t<T,Flags> array,
     const int N0,
     const int N1)
 {
@@ -55,10 +55,10 @@ void set_kokkos_view(
     Kokkos::deep_copy(view, d_array);
 }
 
-template<typename T>
+template<typename T, int Flags>
 void set_kokkos_view(
     Kokkos::View<T***,Kokkos::LayoutRight>& view,
-    py::array_t<T> array,
+    py::array_t<T,Flags> array,
     const int N0,
     const int N1,
     const int N2)
-- 
2.43.0

