From 60fdcea1ec355fa87b4117ce4ea5d68c984fa646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:15 +0000
Subject: [PATCH 01/16] fix: transform the one-body spin operators in a basis
 change

---
 quantum_systems/basis_set.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantum_systems/basis_set.py b/quantum_systems/basis_set.py
index ca737ba..b8ad4cc 100644
--- a/quantum_systems/basis_set.py
+++ b/quantum_systems/basis_set.py
@@ -343,11 +343,13 @@ class BasisSet:
                 self.s, C, C_tilde=C_tilde, np=self.np
             )
 
-        for spin in [self.spin_x, self.spin_y, self.spin_z, self.spin_2]:
+        for name in ["spin_x", "spin_y", "spin_z", "spin_2"]:
+            spin = getattr(self, name)
             if spin is not None:
                 spin = self.transform_one_body_elements(
                     spin, C, C_tilde=C_tilde, np=self.np
                 )
+                setattr(self, name, spin)
 
     def _change_basis_two_body_elements(self, C, C_tilde):
         self.u = self.transform_two_body_elements(
-- 
2.43.0


From 9959528c99355d86b1498131e9647ca138daf106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:15 +0000
Subject: [PATCH 02/16] fix: return the basis when it is already spin-doubled

---
 quantum_systems/basis_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantum_systems/basis_set.py b/quantum_systems/basis_set.py
index b8ad4cc..da97067 100644
--- a/quantum_systems/basis_set.py
+++ b/quantum_systems/basis_set.py
@@ -528,7 +528,7 @@ class BasisSet:
                 "The basis has already been spin-doubled. Avoiding a second "
                 + "doubling."
             )
-            return
+            return self
 
         self._includes_spin = True
 
-- 
2.43.0


From 7d38bc6caf5943c7ff36c137660ebcb6e83bff13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:15 +0000
Subject: [PATCH 03/16] fix: copy bases and systems whose potential refers to
 the array module

---
 quantum_systems/basis_set.py |  9 ++++-----
 quantum_systems/system.py    | 10 ++++------
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/quantum_systems/basis_set.py b/quantum_systems/basis_set.py
index da97067..946657c 100644
--- a/quantum_systems/basis_set.py
+++ b/quantum_systems/basis_set.py
@@ -739,9 +739,9 @@ class BasisSet:
         return [length == axis for axis in arr.shape]
 
     def copy_basis(self):
-        """Function creating a deep copy of the current basis. This function
-        is a hack as we have to temporarily remove the stored module before
-        using Python's ``copy.deepcopy``-function.
+        """Function creating a deep copy of the current basis. The stored
+        module can not be copied, we therefore let ``copy.deepcopy`` keep every
+        reference to it as it is.
 
         Returns
         -------
@@ -750,9 +750,8 @@ class BasisSet:
         """
 
         np = self.np
-        self.np = None
 
-        new_basis = copy.deepcopy(self)
+        new_basis = copy.deepcopy(self, {id(np): np})
 
         new_basis.change_module(np)
         self.change_module(np)
diff --git a/quantum_systems/system.py b/quantum_systems/system.py
index 0856ad8..334bd50 100644
--- a/quantum_systems/system.py
+++ b/quantum_systems/system.py
@@ -161,9 +161,9 @@ class QuantumSystem(metaclass=abc.ABCMeta):
         )
 
     def copy_system(self):
-        """Function creating a deep copy of the current system. This function
-        is a hack as we have to temporarily remove the stored module before
-        using Python's ``copy.deepcopy``-function.
+        """Function creating a deep copy of the current system. The stored
+        module can not be copied, we therefore let ``copy.deepcopy`` keep every
+        reference to it as it is.
 
         Returns
         -------
@@ -172,10 +172,8 @@ class QuantumSystem(metaclass=abc.ABCMeta):
         """
 
         np = self.np
-        self.np = None
-        self._basis_set.np = None
 
-        new_system = copy.deepcopy(self)
+        new_system = copy.deepcopy(self, {id(np): np})
 
         new_system.change_module(np)
         self.change_module(np)
-- 
2.43.0


From 55ce25fe6e1ee206d0d05cb048977f0345239281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:15 +0000
Subject: [PATCH 04/16] fix: carry a time-evolution operator over to the
 general-orbital system

---
 quantum_systems/spatial_orbital_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantum_systems/spatial_orbital_system.py b/quantum_systems/spatial_orbital_system.py
index dab7624..88063cc 100644
--- a/quantum_systems/spatial_orbital_system.py
+++ b/quantum_systems/spatial_orbital_system.py
@@ -98,7 +98,7 @@ class SpatialOrbitalSystem(QuantumSystem):
 
         if not self._time_evolution_operator is None:
             gos.set_time_evolution_operator(
-                copy.deepcopy(self._time_evolution_operator)
+                copy.deepcopy(self._time_evolution_operator, {id(self): gos})
             )
 
         return gos
-- 
2.43.0


From 3a45385eb0a8103f3e393c3fc2be433a6d70035a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:15 +0000
Subject: [PATCH 05/16] fix: spin-double a custom one-body operator in the
 general-orbital system

---
 quantum_systems/spatial_orbital_system.py            |  1 +
 quantum_systems/time_evolution_operators/operator.py | 11 +++++++++++
 2 files changed, 12 insertions(+)

diff --git a/quantum_systems/spatial_orbital_system.py b/quantum_systems/spatial_orbital_system.py
index 88063cc..fbb5138 100644
--- a/quantum_systems/spatial_orbital_system.py
+++ b/quantum_systems/spatial_orbital_system.py
@@ -100,6 +100,7 @@ class SpatialOrbitalSystem(QuantumSystem):
             gos.set_time_evolution_operator(
                 copy.deepcopy(self._time_evolution_operator, {id(self): gos})
             )
+            gos._time_evolution_operator.add_spin()
 
         return gos
 
diff --git a/quantum_systems/time_evolution_operators/operator.py b/quantum_systems/time_evolution_operators/operator.py
index 28ee11f..62830d4 100644
--- a/quantum_systems/time_evolution_operators/operator.py
+++ b/quantum_systems/time_evolution_operators/operator.py
@@ -39,6 +39,12 @@ class TimeEvolutionOperator(metaclass=abc.ABCMeta):
 
         self._system = system
 
+    def add_spin(self):
+        """Internal function used to spin-double elements stored in the
+        operator itself, when the operator is carried over from a
+        ``SpatialOrbitalSystem`` to a ``GeneralOrbitalSystem``.
+        """
+
     def h_t(self, current_time):
         """Function computing the one-body part of the Hamiltonian for a
         specified time.
@@ -134,6 +140,11 @@ class CustomOneBodyOperator(TimeEvolutionOperator):
     def is_one_body_operator(self):
         return True
 
+    def add_spin(self):
+        self._operator = self._system._basis_set.add_spin_one_body(
+            self._operator, np=self._system.np
+        )
+
     def h_t(self, current_time):
         np = self._system.np
 
-- 
2.43.0


From ed4c2768ac92cab9e65ce0b829fee844200155a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:15 +0000
Subject: [PATCH 06/16] fix: a constant laser pulse no longer returns the
 polarization

---
 quantum_systems/time_evolution_operators/operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantum_systems/time_evolution_operators/operator.py b/quantum_systems/time_evolution_operators/operator.py
index 62830d4..bdfd3b9 100644
--- a/quantum_systems/time_evolution_operators/operator.py
+++ b/quantum_systems/time_evolution_operators/operator.py
@@ -95,8 +95,8 @@ class LaserField(TimeEvolutionOperator):
         np = self._system.np
 
         if not callable(self._laser_pulse):
-            tmp = self._laser_pulse
-            self._laser_pulse = lambda t: tmp
+            pulse = self._laser_pulse
+            self._laser_pulse = lambda t: pulse
 
         if self._polarization is None:
             # Set default polarization along x-axis
-- 
2.43.0


From 5626e799f35cc765fcbe0ac8ce22bd0c6c6c03a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:15 +0000
Subject: [PATCH 07/16] fix: set_u_repr stores the converted sinc-DVR elements

---
 quantum_systems/sinc_dvr/one_dim/sinc_dvr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
index a795410..c6e7453 100644
--- a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
+++ b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
@@ -135,9 +135,11 @@ class ODSincDVR(BasisSet):
                 (self.l, self.l, self.l, self.l), dtype=self.u.dtype
             )
             new_u[coords0, coords1, coords0, coords1] = self.u[coords0, coords1]
+            self.u = new_u
         elif new_repr == "2d":
             new_u = np.zeros((self.l, self.l), dtype=self.u.dtype)
             new_u[coords0, coords1] = self.u[coords0, coords1, coords0, coords1]
+            self.u = new_u
         else:
             raise ValueError(
                 "'{}' is not a valid representation".format(new_repr)
-- 
2.43.0


From ef00d89ef66b22bac0720df595ac697191300dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:15 +0000
Subject: [PATCH 08/16] fix: sinc-DVR spin doubling accepts spin vectors as its
 base class does

---
 quantum_systems/sinc_dvr/one_dim/sinc_dvr.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
index c6e7453..da87483 100644
--- a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
+++ b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
@@ -178,7 +178,9 @@ class ODSincDVR(BasisSet):
     def construct_s(self):
         return np.eye(self.l)
 
-    def change_to_general_orbital_basis(self, anti_symmetrize=True):
+    def change_to_general_orbital_basis(
+        self, a=[1, 0], b=[0, 1], anti_symmetrize=True
+    ):
         if anti_symmetrize and self.u_repr == "2d":
             if self.l > 100:
                 warnings.warn(
@@ -187,7 +189,7 @@ class ODSincDVR(BasisSet):
 
             self.set_u_repr("4d")
         return super().change_to_general_orbital_basis(
-            anti_symmetrize=anti_symmetrize
+            a=a, b=b, anti_symmetrize=anti_symmetrize
         )
 
     def change_module(self, np):
-- 
2.43.0


From 0e6b15f416193064a979907741f30cfd778f1fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:15 +0000
Subject: [PATCH 09/16] fix: antisymmetrise sinc-DVR elements held in the 2d
 representation

---
 quantum_systems/sinc_dvr/one_dim/sinc_dvr.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
index da87483..dc5a96b 100644
--- a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
+++ b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
@@ -192,6 +192,12 @@ class ODSincDVR(BasisSet):
             a=a, b=b, anti_symmetrize=anti_symmetrize
         )
 
+    def anti_symmetrize_two_body_elements(self):
+        # Anti-symmetrized elements do not fit in the 2d representation
+        if not self.anti_symmetrized_u and self.u_repr == "2d":
+            self.set_u_repr("4d")
+        super().anti_symmetrize_two_body_elements()
+
     def change_module(self, np):
         if self.sparse_repr:
 
-- 
2.43.0


From 1e3e8b46d04f36bdc532bdf859c3be939c8b3c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:15 +0000
Subject: [PATCH 10/16] fix: sinc-DVR two-body transformation takes C_tilde
 where its base class does

---
 quantum_systems/sinc_dvr/one_dim/sinc_dvr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
index dc5a96b..f268910 100644
--- a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
+++ b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
@@ -226,7 +226,7 @@ class ODSincDVR(BasisSet):
             return super(ODSincDVR, ODSincDVR).anti_symmetrize_u(_u)
 
     def transform_two_body_elements(
-        self, u, C, np, anti_symmetrize=False, C_tilde=None
+        self, u, C, np, C_tilde=None, anti_symmetrize=False
     ):
         """Class method overwriting the static method of BasisSet. Returns a 4d
         u_prime in numpy format, and allows for direct antisymmetrization of transformed
-- 
2.43.0


From 089150abeec8ebe4d6b121be9ca0e14131ca7dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:15 +0000
Subject: [PATCH 11/16] fix: sinc-DVR two-body transformation follows the
 elements it is given

---
 quantum_systems/sinc_dvr/one_dim/sinc_dvr.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
index f268910..c92493a 100644
--- a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
+++ b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
@@ -231,15 +231,11 @@ class ODSincDVR(BasisSet):
         """Class method overwriting the static method of BasisSet. Returns a 4d
         u_prime in numpy format, and allows for direct antisymmetrization of transformed
         elements, to compensate for lack of antisymmetrization in 2d representation of u."""
-        if self.u_repr == "2d":
+        if np.ndim(u) == 2:
             if C_tilde is None:
                 C_tilde = C.conj().T
-            # get the 2d matrix of nonzero values
-            if self.u_repr == "2d":
-                _u = u
-            else:
-                _u = np.zeros(u.shape[:2])
-                _u[u.coords[0], u.coords[1]] = u.data
+            # the 2d matrix of nonzero values
+            _u = u
             u_prime = np.einsum(
                 "bs,ar,qb,pa,ab->pqrs",
                 C,
-- 
2.43.0


From 8b60921e48049f68c33798c2284e59bc3e1d81de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:15 +0000
Subject: [PATCH 12/16] fix: derivative of the symmetric double-well potential

---
 quantum_systems/quantum_dots/one_dim/one_dim_potentials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantum_systems/quantum_dots/one_dim/one_dim_potentials.py b/quantum_systems/quantum_dots/one_dim/one_dim_potentials.py
index 21aae87..f06e60f 100644
--- a/quantum_systems/quantum_dots/one_dim/one_dim_potentials.py
+++ b/quantum_systems/quantum_dots/one_dim/one_dim_potentials.py
@@ -85,7 +85,7 @@ class SymmetricDWPotential(OneDimPotential):
         return self.a * x ** 6 + self.b * x ** 4 + self.c * x ** 2
 
     def derivative(self, x):
-        return 6 * self.a * x ** 5 + 3 * self.b * x ** 3 + 2 * self.c * x
+        return 6 * self.a * x ** 5 + 4 * self.b * x ** 3 + 2 * self.c * x
 
 
 class AsymmetricDWPotential(OneDimPotential):
-- 
2.43.0


From ff213a5b74c58095c5517b17e632fea6e742452f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:15 +0000
Subject: [PATCH 13/16] fix: never leave a partial Coulomb cache file under its
 final name

---
 quantum_systems/quantum_dots/two_dim/two_dim_helper.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quantum_systems/quantum_dots/two_dim/two_dim_helper.py b/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
index 6a9bf04..e734ee2 100644
--- a/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
+++ b/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
@@ -1,6 +1,7 @@
 import os
 import sys
 import time
+import uuid
 
 import numpy as np
 import scipy
@@ -242,8 +243,10 @@ def get_coulomb_elements(num_orbitals, verbose=False):
         print(f"Time spent setting up Coulomb elements {t_1 - t_0} sec")
         print(f"Caching Coulomb elements to {filename}")
 
-    # Store elements
-    np.save(filename, coulomb_elements)
+    # Store elements, only a complete file is given its final name
+    tmp_filename = f"{filename}.{uuid.uuid4().hex}.npy"
+    np.save(tmp_filename, coulomb_elements)
+    os.replace(tmp_filename, filename)
 
     # Return newly created Coulomb elements
     return coulomb_elements
-- 
2.43.0


From 77c3f523bae1e347075c4e8a7bc37c024c4936ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:15 +0000
Subject: [PATCH 14/16] fix: make TwoDimSmoothDoubleWell constructible

---
 .../quantum_dots/two_dim/two_dim_ho.py          | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/quantum_systems/quantum_dots/two_dim/two_dim_ho.py b/quantum_systems/quantum_dots/two_dim/two_dim_ho.py
index 346d978..2856c8f 100644
--- a/quantum_systems/quantum_dots/two_dim/two_dim_ho.py
+++ b/quantum_systems/quantum_dots/two_dim/two_dim_ho.py
@@ -192,20 +192,20 @@ class TwoDimensionalDoubleWell(TwoDimensionalHarmonicOscillator):
 
 
 class TwoDimSmoothDoubleWell(TwoDimensionalHarmonicOscillator):
-    def __init__(self, *args, a=2, b=2, l_ho_factor=1, **kwargs):
+    def __init__(self, l, *args, a=2, b=2, l_ho_factor=1, **kwargs):
 
         assert l_ho_factor >= 1, (
             "Ensure number of harmonic oscillator functions are higher than"
             + " the number of double-well basis functions"
         )
 
-        l_ho = math.floor(l * l_ho_factor)
-        super().__init__(*args, **kwargs)
-
         self.l_dw = l
         self.a = a
         self.b = b
 
+        l_ho = math.floor(l * l_ho_factor)
+        super().__init__(l_ho, *args, **kwargs)
+
     def setup_basis(self):
         """The wells are divided by x-axis by default."""
 
@@ -221,15 +221,12 @@ class TwoDimSmoothDoubleWell(TwoDimensionalHarmonicOscillator):
         )
 
         self.epsilon, C = np.linalg.eigh(h_dw)
-        self._h = np.diagflat(self.epsilon[: self.l_dw])
-        self._s = np.eye(self.l_dw)
         C_dw = C[:, : self.l_dw]
 
-        self.change_basis_two_body_elements(C_dw)
-        self.change_basis_dipole_moment(C_dw)
-        self.change_basis_spf(C_dw)
+        self.change_basis(C_dw)
 
-        self.set_system_size(self.n, self.l_dw)
+        self._h = np.diagflat(self.epsilon[: self.l_dw])
+        self._s = np.eye(self.l_dw)
 
         self.cast_to_complex()
         self.change_module(self.np)
-- 
2.43.0


From e40a54f2760572b3946d82e9bc6a1ad9d268df84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:15 +0000
Subject: [PATCH 15/16] fix: particle density of real orbitals with a complex
 density matrix

---
 quantum_systems/system_helper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantum_systems/system_helper.py b/quantum_systems/system_helper.py
index 62f0637..bebd025 100644
--- a/quantum_systems/system_helper.py
+++ b/quantum_systems/system_helper.py
@@ -15,7 +15,9 @@ def compute_particle_density(rho_qp, ket_spf, bra_spf, np):
     assert bra_spf.shape == ket_spf.shape
     assert bra_spf.dtype == ket_spf.dtype
 
-    rho = np.zeros(ket_spf.shape[1:], dtype=ket_spf.dtype)
+    rho = np.zeros(
+        ket_spf.shape[1:], dtype=np.result_type(ket_spf, rho_qp)
+    )
 
     for p in range(bra_spf.shape[0]):
         phi_tilde_p = bra_spf[p]
-- 
2.43.0


From 58dba2907a67eeb6171f2bf77281da7019b9d248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:15 +0000
Subject: [PATCH 16/16] fix: default bra functions follow the ket functions

---
 quantum_systems/basis_set.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantum_systems/basis_set.py b/quantum_systems/basis_set.py
index 946657c..f17c038 100644
--- a/quantum_systems/basis_set.py
+++ b/quantum_systems/basis_set.py
@@ -225,7 +225,7 @@ class BasisSet:
     def bra_spf(self):
         if self._bra_spf is None and self._spf is not None:
             # Return complex conjugate in case of a Hermitian basis set.
-            self._bra_spf = self._spf.conj()
+            return self._spf.conj()
 
         return self._bra_spf
 
@@ -264,7 +264,7 @@ class BasisSet:
             ("_s", self.s),
             ("_u", self.u),
             ("_spf", self.spf),
-            ("_bra_spf", self.bra_spf),
+            ("_bra_spf", self._bra_spf),
             ("_dipole_moment", self.dipole_moment),
             ("_spin_x", self.spin_x),
             ("_spin_y", self.spin_y),
@@ -285,7 +285,7 @@ class BasisSet:
             ("_s", self.s),
             ("_u", self.u),
             ("_spf", self.spf),
-            ("_bra_spf", self.bra_spf),
+            ("_bra_spf", self._bra_spf),
             ("_dipole_moment", self.dipole_moment),
             ("_spin_x", self.spin_x),
             ("_spin_y", self.spin_y),
-- 
2.43.0

