From 5b6f36ee30ed89ba2d538e9f0c562e0b4b0e241d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:00 +0000
Subject: [PATCH 01/13] fix: store the transformed spin matrices in a change of
 basis

The loop rebound its loop variable, so spin_x, spin_y, spin_z and spin_2 kept
their old values (and, for rectangular C, their old size).
---
 quantum_systems/basis_set.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantum_systems/basis_set.py b/quantum_systems/basis_set.py
index ca737ba..07aba0f 100644
--- a/quantum_systems/basis_set.py
+++ b/quantum_systems/basis_set.py
@@ -343,11 +343,14 @@ class BasisSet:
                 self.s, C, C_tilde=C_tilde, np=self.np
             )
 
-        for spin in [self.spin_x, self.spin_y, self.spin_z, self.spin_2]:
+        for name in ["spin_x", "spin_y", "spin_z", "spin_2"]:
+            spin = getattr(self, name)
+
             if spin is not None:
                 spin = self.transform_one_body_elements(
                     spin, C, C_tilde=C_tilde, np=self.np
                 )
+                setattr(self, name, spin)
 
     def _change_basis_two_body_elements(self, C, C_tilde):
         self.u = self.transform_two_body_elements(
-- 
2.43.0


From 9f89ce22503ba2b6ed53faa2d14310860d08164c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:00 +0000
Subject: [PATCH 02/13] fix: derivative of the quartic term in
 SymmetricDWPotential

---
 quantum_systems/quantum_dots/one_dim/one_dim_potentials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantum_systems/quantum_dots/one_dim/one_dim_potentials.py b/quantum_systems/quantum_dots/one_dim/one_dim_potentials.py
index 21aae87..f06e60f 100644
--- a/quantum_systems/quantum_dots/one_dim/one_dim_potentials.py
+++ b/quantum_systems/quantum_dots/one_dim/one_dim_potentials.py
@@ -85,7 +85,7 @@ class SymmetricDWPotential(OneDimPotential):
         return self.a * x ** 6 + self.b * x ** 4 + self.c * x ** 2
 
     def derivative(self, x):
-        return 6 * self.a * x ** 5 + 3 * self.b * x ** 3 + 2 * self.c * x
+        return 6 * self.a * x ** 5 + 4 * self.b * x ** 3 + 2 * self.c * x
 
 
 class AsymmetricDWPotential(OneDimPotential):
-- 
2.43.0


From 1387a4bcdf3aab2f4fea215efa6ff344ed97c526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:00 +0000
Subject: [PATCH 03/13] fix: particle density of a complex density matrix with
 real orbitals

---
 quantum_systems/system_helper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantum_systems/system_helper.py b/quantum_systems/system_helper.py
index 62f0637..bebd025 100644
--- a/quantum_systems/system_helper.py
+++ b/quantum_systems/system_helper.py
@@ -15,7 +15,9 @@ def compute_particle_density(rho_qp, ket_spf, bra_spf, np):
     assert bra_spf.shape == ket_spf.shape
     assert bra_spf.dtype == ket_spf.dtype
 
-    rho = np.zeros(ket_spf.shape[1:], dtype=ket_spf.dtype)
+    rho = np.zeros(
+        ket_spf.shape[1:], dtype=np.result_type(ket_spf, rho_qp)
+    )
 
     for p in range(bra_spf.shape[0]):
         phi_tilde_p = bra_spf[p]
-- 
2.43.0


From ab11813368dfe49386204df66554cd77b346f200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:00 +0000
Subject: [PATCH 04/13] fix: Fock matrix of real one-body and complex two-body
 elements

---
 quantum_systems/general_orbital_system.py | 2 +-
 quantum_systems/spatial_orbital_system.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantum_systems/general_orbital_system.py b/quantum_systems/general_orbital_system.py
index 971c65e..4f41734 100644
--- a/quantum_systems/general_orbital_system.py
+++ b/quantum_systems/general_orbital_system.py
@@ -128,7 +128,7 @@ class GeneralOrbitalSystem(QuantumSystem):
         o, v = (self.o, self.v)
 
         if f is None:
-            f = np.zeros_like(h)
+            f = np.zeros_like(h, dtype=np.result_type(h, u))
 
         f.fill(0)
 
diff --git a/quantum_systems/spatial_orbital_system.py b/quantum_systems/spatial_orbital_system.py
index dab7624..2ed0363 100644
--- a/quantum_systems/spatial_orbital_system.py
+++ b/quantum_systems/spatial_orbital_system.py
@@ -160,7 +160,7 @@ class SpatialOrbitalSystem(QuantumSystem):
         o, v = (self.o, self.v)
 
         if f is None:
-            f = np.zeros_like(h)
+            f = np.zeros_like(h, dtype=np.result_type(h, u))
 
         f.fill(0)
 
-- 
2.43.0


From 0d30bf6249fb193fa5f6987a7ea6d8e88a48ec3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:41 +0000
Subject: [PATCH 05/13] fix: store the converted two-body elements in
 ODSincDVR.set_u_repr

---
 quantum_systems/sinc_dvr/one_dim/sinc_dvr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
index a795410..ee5547a 100644
--- a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
+++ b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
@@ -130,6 +130,7 @@ class ODSincDVR(BasisSet):
 
         if new_repr == self.u_repr:
             print("u repr is already {}, doing nothing".format(new_repr))
+            return
         elif new_repr == "4d":
             new_u = np.zeros(
                 (self.l, self.l, self.l, self.l), dtype=self.u.dtype
@@ -143,6 +144,8 @@ class ODSincDVR(BasisSet):
                 "'{}' is not a valid representation".format(new_repr)
             )
 
+        self.u = new_u
+
     def construct_sinc_grid(self):
         x = self.grid
         return 1 / np.sqrt(self.dx) * np.sinc((x - x[:, None]) / self.dx)
-- 
2.43.0


From d6b8acfde6653af3b64c8329afbdc1ef2aebeccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:41 +0000
Subject: [PATCH 06/13] fix: accept spin basis vectors in
 ODSincDVR.change_to_general_orbital_basis

---
 quantum_systems/sinc_dvr/one_dim/sinc_dvr.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
index ee5547a..64e6ada 100644
--- a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
+++ b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
@@ -179,7 +179,9 @@ class ODSincDVR(BasisSet):
     def construct_s(self):
         return np.eye(self.l)
 
-    def change_to_general_orbital_basis(self, anti_symmetrize=True):
+    def change_to_general_orbital_basis(
+        self, a=[1, 0], b=[0, 1], anti_symmetrize=True
+    ):
         if anti_symmetrize and self.u_repr == "2d":
             if self.l > 100:
                 warnings.warn(
@@ -188,7 +190,7 @@ class ODSincDVR(BasisSet):
 
             self.set_u_repr("4d")
         return super().change_to_general_orbital_basis(
-            anti_symmetrize=anti_symmetrize
+            a=a, b=b, anti_symmetrize=anti_symmetrize
         )
 
     def change_module(self, np):
-- 
2.43.0


From 9c87ccbc39f1829fdd1f9b44efe0e54b81fb472f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:41 +0000
Subject: [PATCH 07/13] fix: anti-symmetrize 2d two-body elements of ODSincDVR
 in 4d form

---
 quantum_systems/sinc_dvr/one_dim/sinc_dvr.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
index 64e6ada..979939a 100644
--- a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
+++ b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
@@ -193,6 +193,13 @@ class ODSincDVR(BasisSet):
             a=a, b=b, anti_symmetrize=anti_symmetrize
         )
 
+    def anti_symmetrize_two_body_elements(self):
+        # Anti-symmetric elements cannot be represented by a 2d u.
+        if not self._anti_symmetrized_u and self.u_repr == "2d":
+            self.set_u_repr("4d")
+
+        super().anti_symmetrize_two_body_elements()
+
     def change_module(self, np):
         if self.sparse_repr:
 
-- 
2.43.0


From cff82f5b0f5b0f355df708cda919db5e8c922bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:04 +0000
Subject: [PATCH 08/13] fix: construct_general_orbital_system with a
 time-evolution operator

---
 quantum_systems/spatial_orbital_system.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantum_systems/spatial_orbital_system.py b/quantum_systems/spatial_orbital_system.py
index 2ed0363..17206b6 100644
--- a/quantum_systems/spatial_orbital_system.py
+++ b/quantum_systems/spatial_orbital_system.py
@@ -98,7 +98,8 @@ class SpatialOrbitalSystem(QuantumSystem):
 
         if not self._time_evolution_operator is None:
             gos.set_time_evolution_operator(
-                copy.deepcopy(self._time_evolution_operator)
+                # Let the copied operator refer to the new system
+                copy.deepcopy(self._time_evolution_operator, {id(self): gos})
             )
 
         return gos
-- 
2.43.0


From 100df92aed15c4a7e87bc7e66a84f1047a89ff3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:04 +0000
Subject: [PATCH 09/13] fix: copy basis sets and systems whose potential stores
 the array module

---
 quantum_systems/basis_set.py | 3 ++-
 quantum_systems/system.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantum_systems/basis_set.py b/quantum_systems/basis_set.py
index 07aba0f..bb751df 100644
--- a/quantum_systems/basis_set.py
+++ b/quantum_systems/basis_set.py
@@ -753,7 +753,8 @@ class BasisSet:
         np = self.np
         self.np = None
 
-        new_basis = copy.deepcopy(self)
+        # Potentials may also store the module, which cannot be copied
+        new_basis = copy.deepcopy(self, {id(np): np})
 
         new_basis.change_module(np)
         self.change_module(np)
diff --git a/quantum_systems/system.py b/quantum_systems/system.py
index 0856ad8..0fa6a54 100644
--- a/quantum_systems/system.py
+++ b/quantum_systems/system.py
@@ -175,7 +175,8 @@ class QuantumSystem(metaclass=abc.ABCMeta):
         self.np = None
         self._basis_set.np = None
 
-        new_system = copy.deepcopy(self)
+        # Potentials may also store the module, which cannot be copied
+        new_system = copy.deepcopy(self, {id(np): np})
 
         new_system.change_module(np)
         self.change_module(np)
-- 
2.43.0


From 8246a1abd76d0da0412bbdcb7c8714be32e36f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:58 +0000
Subject: [PATCH 10/13] fix: constant laser pulse with constant or default
 polarization in LaserField

---
 quantum_systems/time_evolution_operators/operator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantum_systems/time_evolution_operators/operator.py b/quantum_systems/time_evolution_operators/operator.py
index 28ee11f..9394b6c 100644
--- a/quantum_systems/time_evolution_operators/operator.py
+++ b/quantum_systems/time_evolution_operators/operator.py
@@ -89,8 +89,8 @@ class LaserField(TimeEvolutionOperator):
         np = self._system.np
 
         if not callable(self._laser_pulse):
-            tmp = self._laser_pulse
-            self._laser_pulse = lambda t: tmp
+            pulse = self._laser_pulse
+            self._laser_pulse = lambda t: pulse
 
         if self._polarization is None:
             # Set default polarization along x-axis
@@ -98,8 +98,8 @@ class LaserField(TimeEvolutionOperator):
             self._polarization[0] = 1
 
         if not callable(self._polarization):
-            tmp = self._polarization
-            self._polarization = lambda t: tmp
+            polarization = self._polarization
+            self._polarization = lambda t: polarization
 
         return self._system.h + self._laser_pulse(current_time) * np.tensordot(
             self._polarization(current_time),
-- 
2.43.0


From 54e9d92e9dff052c17f9ed4208c99e64d32a2367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:08 +0000
Subject: [PATCH 11/13] fix: LaserField keeps no default polarisation of one
 system for the next

---
 .../time_evolution_operators/operator.py          | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/quantum_systems/time_evolution_operators/operator.py b/quantum_systems/time_evolution_operators/operator.py
index 9394b6c..11e5524 100644
--- a/quantum_systems/time_evolution_operators/operator.py
+++ b/quantum_systems/time_evolution_operators/operator.py
@@ -92,17 +92,18 @@ class LaserField(TimeEvolutionOperator):
             pulse = self._laser_pulse
             self._laser_pulse = lambda t: pulse
 
-        if self._polarization is None:
+        polarization = self._polarization
+
+        if polarization is None:
             # Set default polarization along x-axis
-            self._polarization = np.zeros(self._system.dipole_moment.shape[0])
-            self._polarization[0] = 1
+            polarization = np.zeros(self._system.dipole_moment.shape[0])
+            polarization[0] = 1
 
-        if not callable(self._polarization):
-            polarization = self._polarization
-            self._polarization = lambda t: polarization
+        if callable(polarization):
+            polarization = polarization(current_time)
 
         return self._system.h + self._laser_pulse(current_time) * np.tensordot(
-            self._polarization(current_time),
+            polarization,
             self._system.dipole_moment,
             axes=(0, 0),
         )
-- 
2.43.0


From 36a65cb26806f755741c48d2de2418f5364da7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:08 +0000
Subject: [PATCH 12/13] fix: two-dimensional dataframe capping stays inside the
 table when all levels coincide

---
 quantum_systems/quantum_dots/two_dim/two_dim_helper.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantum_systems/quantum_dots/two_dim/two_dim_helper.py b/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
index 6a9bf04..025a2d2 100644
--- a/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
+++ b/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
@@ -409,7 +409,10 @@ def construct_dataframe(n_array, m_array, omega_c=0, omega=1):
     # Capping size of basis set.
     min_num_states = len(n_array) * (len(n_array) - 1) // 2
     level_of_orbital_cap = df.iloc[min_num_states]["level"]
-    while df.iloc[min_num_states]["level"] == level_of_orbital_cap:
+    while (
+        min_num_states < len(df)
+        and df.iloc[min_num_states]["level"] == level_of_orbital_cap
+    ):
         min_num_states += 1
 
     df["n"] = df["n"].astype(int)
-- 
2.43.0


From dbdf6a3fb3669e52f856a1a363f243b444893a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:02 +0000
Subject: [PATCH 13/13] fix: spin-double the matrix of a custom one-body
 operator along with its system

---
 quantum_systems/spatial_orbital_system.py         |  1 +
 .../time_evolution_operators/operator.py          | 15 +++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/quantum_systems/spatial_orbital_system.py b/quantum_systems/spatial_orbital_system.py
index 17206b6..a8daf16 100644
--- a/quantum_systems/spatial_orbital_system.py
+++ b/quantum_systems/spatial_orbital_system.py
@@ -101,6 +101,7 @@ class SpatialOrbitalSystem(QuantumSystem):
                 # Let the copied operator refer to the new system
                 copy.deepcopy(self._time_evolution_operator, {id(self): gos})
             )
+            gos._time_evolution_operator.change_to_general_orbital_basis()
 
         return gos
 
diff --git a/quantum_systems/time_evolution_operators/operator.py b/quantum_systems/time_evolution_operators/operator.py
index 11e5524..5dc220a 100644
--- a/quantum_systems/time_evolution_operators/operator.py
+++ b/quantum_systems/time_evolution_operators/operator.py
@@ -1,5 +1,7 @@
 import abc
 
+from quantum_systems.basis_set import BasisSet
+
 
 class TimeEvolutionOperator(metaclass=abc.ABCMeta):
     @property
@@ -39,6 +41,14 @@ class TimeEvolutionOperator(metaclass=abc.ABCMeta):
 
         self._system = system
 
+    def change_to_general_orbital_basis(self):
+        """Internal function called when the system of the operator has been
+        constructed by duplicating every basis element of another system. To be
+        overridden by operators holding matrix elements of their own.
+        """
+
+        pass
+
     def h_t(self, current_time):
         """Function computing the one-body part of the Hamiltonian for a
         specified time.
@@ -135,6 +145,11 @@ class CustomOneBodyOperator(TimeEvolutionOperator):
     def is_one_body_operator(self):
         return True
 
+    def change_to_general_orbital_basis(self):
+        self._operator = BasisSet.add_spin_one_body(
+            self._operator, np=self._system.np
+        )
+
     def h_t(self, current_time):
         np = self._system.np
 
-- 
2.43.0

