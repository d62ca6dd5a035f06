From 489f8ccfa9b8228db7ef0bac4136472bd4d42a38 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:20 +0000
Subject: [PATCH 01/35] fix: keep constants and single ladder operators in
 normal ordering

A fully contracted product (a_p a_p^dagger) lost its constant, and any term
of length one (from a contraction or an adjoint) raised IndexError.
---
 slowquant/unitary_coupled_cluster/fermionic_operator.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/slowquant/unitary_coupled_cluster/fermionic_operator.py b/slowquant/unitary_coupled_cluster/fermionic_operator.py
index c592bbc..fd9c5e4 100644
--- a/slowquant/unitary_coupled_cluster/fermionic_operator.py
+++ b/slowquant/unitary_coupled_cluster/fermionic_operator.py
@@ -52,7 +52,7 @@ def do_extended_normal_ordering(
             changed = False
             is_zero = False
             while True:
-                if len(next_operator) == 0:
+                if len(next_operator) < 2:
                     break
                 a = next_operator[current_idx]
                 b = next_operator[current_idx + 1]
@@ -70,9 +70,8 @@ def do_extended_normal_ordering(
                         new_op = copy.copy(next_operator)
                         new_op.pop(j)
                         new_op.pop(i)
-                        if len(new_op) > 0:
-                            operator_queue.append(new_op)
-                            factor_queue.append(factor)
+                        operator_queue.append(new_op)
+                        factor_queue.append(factor)
                         next_operator[i], next_operator[j] = next_operator[j], next_operator[i]
                         factor *= -1
                         changed = True
-- 
2.43.0


From 855fd72468540aa6f93633e0f16a4686ea856b9e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:20 +0000
Subject: [PATCH 02/35] fix: in-place subtraction of a fermionic operator from
 itself

Deleting cancelled terms while iterating over the same dictionary raised
RuntimeError for 'A -= A'.
---
 slowquant/unitary_coupled_cluster/fermionic_operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slowquant/unitary_coupled_cluster/fermionic_operator.py b/slowquant/unitary_coupled_cluster/fermionic_operator.py
index fd9c5e4..ccbe5ad 100644
--- a/slowquant/unitary_coupled_cluster/fermionic_operator.py
+++ b/slowquant/unitary_coupled_cluster/fermionic_operator.py
@@ -153,7 +153,7 @@ class FermionicOperator:
         Returns:
             Updated fermionic operator.
         """
-        for op_key in fermistring.operators.keys():
+        for op_key in list(fermistring.operators.keys()):
             if op_key in self.operators.keys():
                 self.operators[op_key] += fermistring.operators[op_key]
                 if abs(self.operators[op_key]) < 10**-14:
@@ -192,7 +192,7 @@ class FermionicOperator:
             Update fermionic operator.
         """
         # Combine annihilation string entries of two FermionicOperators with relevant sign flip.
-        for op_key in fermistring.operators.keys():
+        for op_key in list(fermistring.operators.keys()):
             if op_key in self.operators.keys():
                 self.operators[op_key] -= fermistring.operators[op_key]
                 if abs(self.operators[op_key]) < 10**-14:
-- 
2.43.0


From c833727baca1d6a4ba7631547e25f61c4fa5e214 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:46 +0000
Subject: [PATCH 03/35] fix: sign of folded operators that change the active
 particle number

Moving an odd number of inactive creators past the active annihilators gives
a sign that depends on the number of active annihilators, not creators.
---
 slowquant/unitary_coupled_cluster/fermionic_operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slowquant/unitary_coupled_cluster/fermionic_operator.py b/slowquant/unitary_coupled_cluster/fermionic_operator.py
index ccbe5ad..89d872a 100644
--- a/slowquant/unitary_coupled_cluster/fermionic_operator.py
+++ b/slowquant/unitary_coupled_cluster/fermionic_operator.py
@@ -453,7 +453,7 @@ class FermionicOperator:
             # The inactive bra and ket side must end up giving identical state vectors.
             if bra_side != ket_side:
                 continue
-            if len(inactive_dagger) % 2 == 1 and len(active_dagger) % 2 == 1:
+            if len(inactive_dagger) % 2 == 1 and len(active) % 2 == 1:
                 fac *= -1
             # Calculate sign coming from flipping the order of the ket side.
             # It has to be "flipped" to match the order on the bra side.
-- 
2.43.0


From 7b6ed0e382354bed11666d493c57415354a6a2b7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:59 +0000
Subject: [PATCH 04/35] fix: first single of the SDS pair block is a
 spin-adapted single

---
 slowquant/unitary_coupled_cluster/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slowquant/unitary_coupled_cluster/util.py b/slowquant/unitary_coupled_cluster/util.py
index fc84fb4..4d0aa74 100644
--- a/slowquant/unitary_coupled_cluster/util.py
+++ b/slowquant/unitary_coupled_cluster/util.py
@@ -1039,7 +1039,7 @@ class UpsStructure:
                     self.n_params += 1
             if do_pD:
                 for a, i, b, j in iterate_pair_t2(occ_idx, unocc_idx):
-                    self.excitation_operator_type.append("double")
+                    self.excitation_operator_type.append("sa_single")
                     self.excitation_indices.append((i // 2, a // 2))
                     self.grad_param_R[f"p{self.n_params:09d}"] = 4
                     self.param_names.append(f"p{self.n_params:09d}")
-- 
2.43.0


From 5dc1036999e9a26040c114709a455b0283f15294 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:59 +0000
Subject: [PATCH 05/35] fix: fUCCpD and SAfUCCSD select their excitations in
 WaveFunctionUPS

---
 slowquant/unitary_coupled_cluster/ups_wavefunction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slowquant/unitary_coupled_cluster/ups_wavefunction.py b/slowquant/unitary_coupled_cluster/ups_wavefunction.py
index aef12c7..5816879 100644
--- a/slowquant/unitary_coupled_cluster/ups_wavefunction.py
+++ b/slowquant/unitary_coupled_cluster/ups_wavefunction.py
@@ -277,9 +277,9 @@ class WaveFunctionUPS:
             elif ansatz.lower() == "ksafupccgsd":
                 self.ansatz_options["SAGS"] = True
                 self.ansatz_options["GpD"] = True
-            elif ansatz.lower() == "fuccspd":
+            elif ansatz.lower() == "fuccpd":
                 self.ansatz_options["pD"] = True
-            elif ansatz.lower() == "safuccspd":
+            elif ansatz.lower() == "safuccsd":
                 self.ansatz_options["SAS"] = True
                 self.ansatz_options["SAD"] = True
             if "n_layers" not in self.ansatz_options.keys():
-- 
2.43.0


From 8b4b18045f6dd21fd5c653171457834b3781de73 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:59 +0000
Subject: [PATCH 06/35] fix: do not write into the caller's ansatz_options

---
 slowquant/qiskit_interface/interface.py                  | 2 +-
 slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py | 2 +-
 slowquant/unitary_coupled_cluster/ups_wavefunction.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/slowquant/qiskit_interface/interface.py b/slowquant/qiskit_interface/interface.py
index 0df6239..0217540 100644
--- a/slowquant/qiskit_interface/interface.py
+++ b/slowquant/qiskit_interface/interface.py
@@ -124,7 +124,7 @@ class QuantumInterface:
         self.total_shots_used = 0
         self.total_device_calls = 0
         self.total_paulis_evaluated = 0
-        self.ansatz_options = ansatz_options
+        self.ansatz_options = ansatz_options.copy()
         self._pass_manager: PassManager = None
         self.saver: dict[int, Clique] = {}
         self._save_paulis = True  # hard switch to stop using Pauli saving (debugging tool).
diff --git a/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py b/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
index f813fa2..7f30c22 100644
--- a/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
+++ b/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
@@ -91,7 +91,7 @@ class WaveFunctionSAUPS:
         self._g_mo = None
         self._sa_energy: float | None = None
         self._state_energies = None
-        self.ansatz_options = ansatz_options
+        self.ansatz_options = ansatz_options.copy()
         self.num_energy_evals = 0
         # Used when converting to circuit wavefunction.
         self._include_active_kappa = include_active_kappa
diff --git a/slowquant/unitary_coupled_cluster/ups_wavefunction.py b/slowquant/unitary_coupled_cluster/ups_wavefunction.py
index 5816879..fb1bce2 100644
--- a/slowquant/unitary_coupled_cluster/ups_wavefunction.py
+++ b/slowquant/unitary_coupled_cluster/ups_wavefunction.py
@@ -84,7 +84,7 @@ class WaveFunctionUPS:
         self._h_mo = None
         self._g_mo = None
         self._energy_elec: float | None = None
-        self.ansatz_options = ansatz_options
+        self.ansatz_options = ansatz_options.copy()
         self.num_energy_evals = 0
         # Used when converting to circuit wavefunction.
         self._include_active_kappa = include_active_kappa
-- 
2.43.0


From cc1abebb753c9a74edf5eb17227177b419f2cf1d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:59 +0000
Subject: [PATCH 07/35] fix: three- and four-electron RDMs of a fresh
 WaveFunctionUPS

---
 slowquant/unitary_coupled_cluster/ups_wavefunction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/slowquant/unitary_coupled_cluster/ups_wavefunction.py b/slowquant/unitary_coupled_cluster/ups_wavefunction.py
index fb1bce2..4a5baeb 100644
--- a/slowquant/unitary_coupled_cluster/ups_wavefunction.py
+++ b/slowquant/unitary_coupled_cluster/ups_wavefunction.py
@@ -81,6 +81,8 @@ class WaveFunctionUPS:
         self.num_virtual_spin_orbs = 0
         self._rdm1 = None
         self._rdm2 = None
+        self._rdm3 = None
+        self._rdm4 = None
         self._h_mo = None
         self._g_mo = None
         self._energy_elec: float | None = None
-- 
2.43.0


From d4b6ed89d2f8115582499bd93bf68f0e86b505b4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:59 +0000
Subject: [PATCH 08/35] fix: state-interaction coefficients of fresh and
 re-orbital-rotated state-averaged wave functions

---
 slowquant/qiskit_interface/sa_circuit_wavefunction.py    | 3 +++
 slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py | 1 +
 2 files changed, 4 insertions(+)

diff --git a/slowquant/qiskit_interface/sa_circuit_wavefunction.py b/slowquant/qiskit_interface/sa_circuit_wavefunction.py
index 91739fb..2e1e02a 100644
--- a/slowquant/qiskit_interface/sa_circuit_wavefunction.py
+++ b/slowquant/qiskit_interface/sa_circuit_wavefunction.py
@@ -89,6 +89,7 @@ class WaveFunctionSACircuit:
         self._g_mo = None
         self._sa_energy: float | None = None
         self._state_energies = None
+        self._state_ci_coeffs = None
         self.num_energy_evals = 0  # number of energy measurements on quanutm
         active_space = []
         orbital_counter = 0
@@ -228,6 +229,7 @@ class WaveFunctionSACircuit:
         self._g_mo = None
         self._sa_energy = None
         self._state_energies = None
+        self._state_ci_coeffs = None
         self._kappa = k.copy()
         # Move current expansion point.
         self._c_mo = self.c_mo
@@ -324,6 +326,7 @@ class WaveFunctionSACircuit:
         self._rdm2 = None
         self._sa_energy = None
         self._state_energies = None
+        self._state_ci_coeffs = None
         self.QI.total_device_calls = 0
         self.QI.total_shots_used = 0
         self.QI.total_paulis_evaluated = 0
diff --git a/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py b/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
index 7f30c22..9414db6 100644
--- a/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
+++ b/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
@@ -91,6 +91,7 @@ class WaveFunctionSAUPS:
         self._g_mo = None
         self._sa_energy: float | None = None
         self._state_energies = None
+        self._state_ci_coeffs = None
         self.ansatz_options = ansatz_options.copy()
         self.num_energy_evals = 0
         # Used when converting to circuit wavefunction.
-- 
2.43.0


From be480102e2e622a736d3ced46f1e836ba3aa83a8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:59 +0000
Subject: [PATCH 09/35] fix: generalized doubles do not repeat a spin orbital

---
 slowquant/unitary_coupled_cluster/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slowquant/unitary_coupled_cluster/util.py b/slowquant/unitary_coupled_cluster/util.py
index 4d0aa74..4bb8201 100644
--- a/slowquant/unitary_coupled_cluster/util.py
+++ b/slowquant/unitary_coupled_cluster/util.py
@@ -220,9 +220,9 @@ def iterate_t2_generalized(
         T2 operator iteration.
     """
     for i in range(num_spin_orbs):
-        for j in range(i, num_spin_orbs):
+        for j in range(i + 1, num_spin_orbs):
             for a in range(max(i, j) + 1, num_spin_orbs):
-                for b in range(a, num_spin_orbs):
+                for b in range(a + 1, num_spin_orbs):
                     num_alpha = 0
                     num_beta = 0
                     if a % 2 == 0:
-- 
2.43.0


From 5d8832925d24c63b48581fbeaa852e8ff314597c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:07 +0000
Subject: [PATCH 10/35] fix: reset the orbital rotation after each macro
 iteration of the UCC two-step optimization

---
 slowquant/unitary_coupled_cluster/ucc_wavefunction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slowquant/unitary_coupled_cluster/ucc_wavefunction.py b/slowquant/unitary_coupled_cluster/ucc_wavefunction.py
index 25c12bc..27492d4 100644
--- a/slowquant/unitary_coupled_cluster/ucc_wavefunction.py
+++ b/slowquant/unitary_coupled_cluster/ucc_wavefunction.py
@@ -834,7 +834,7 @@ class WaveFunctionUCC:
                 self._E_opt_old = 0.0
                 res = optimizer.minimize([0.0] * len(self.kappa_idx))
                 for i in range(len(self.kappa)):
-                    self.kappa[i] = 0.0
+                    self._kappa[i] = 0.0
                     self._kappa_old[i] = 0.0
             else:
                 # If theres is no orbital optimization, then the algorithm is already converged.
-- 
2.43.0


From 3f629501333b611d54292374ad9de739f40048a3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:20 +0000
Subject: [PATCH 11/35] fix: leave the orbitals at the optimum and report the
 energy of the final state

---
 slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py | 7 ++++++-
 slowquant/unitary_coupled_cluster/ucc_wavefunction.py    | 6 +++++-
 slowquant/unitary_coupled_cluster/ups_wavefunction.py    | 6 +++++-
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py b/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
index 9414db6..32a4365 100644
--- a/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
+++ b/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
@@ -613,6 +613,8 @@ class WaveFunctionSAUPS:
                 self._old_opt_parameters = np.zeros(len(self.kappa_idx)) + 10**20
                 self._E_opt_old = 0.0
                 res = optimizer.minimize([0.0] * len(self.kappa_idx))
+                # The last point evaluated by the optimizer need not be the one it returns.
+                self.kappa = res.x.tolist()
                 for i in range(len(self.kappa)):
                     self._kappa[i] = 0.0
                     self._kappa_old[i] = 0.0
@@ -729,6 +731,8 @@ class WaveFunctionSAUPS:
                 parameters,
             )
         if orbital_optimization:
+            # The last point evaluated by the optimizer need not be the one it returns.
+            self.kappa = res.x[: len(self.kappa)].tolist()
             self.thetas = res.x[len(self.kappa) :].tolist()
             for i in range(len(self.kappa)):
                 self._kappa[i] = 0.0
@@ -737,7 +741,8 @@ class WaveFunctionSAUPS:
             self.thetas = res.x.tolist()
         # Subspace diagonalization
         self._do_state_ci()
-        self._sa_energy = res.fun
+        if not orbital_optimization:
+            self._sa_energy = res.fun
 
     def _do_state_ci(self) -> None:
         r"""Do subspace diagonalisation.
diff --git a/slowquant/unitary_coupled_cluster/ucc_wavefunction.py b/slowquant/unitary_coupled_cluster/ucc_wavefunction.py
index 27492d4..d7fd889 100644
--- a/slowquant/unitary_coupled_cluster/ucc_wavefunction.py
+++ b/slowquant/unitary_coupled_cluster/ucc_wavefunction.py
@@ -833,6 +833,8 @@ class WaveFunctionUCC:
                 self._old_opt_parameters = np.zeros(len(self.kappa_idx)) + 10**20
                 self._E_opt_old = 0.0
                 res = optimizer.minimize([0.0] * len(self.kappa_idx))
+                # The last point evaluated by the optimizer need not be the one it returns.
+                self.kappa = res.x.tolist()
                 for i in range(len(self.kappa)):
                     self._kappa[i] = 0.0
                     self._kappa_old[i] = 0.0
@@ -955,13 +957,15 @@ class WaveFunctionUCC:
             parameters,
         )
         if orbital_optimization:
+            # The last point evaluated by the optimizer need not be the one it returns.
+            self.kappa = res.x[: len(self.kappa)].tolist()
             self.thetas = res.x[len(self.kappa) :].tolist()
             for i in range(len(self.kappa)):
                 self._kappa[i] = 0.0
                 self._kappa_old[i] = 0.0
         else:
             self.thetas = res.x.tolist()
-        self._energy_elec = res.fun
+            self._energy_elec = res.fun
 
     def _calc_energy_optimization(
         self,
diff --git a/slowquant/unitary_coupled_cluster/ups_wavefunction.py b/slowquant/unitary_coupled_cluster/ups_wavefunction.py
index 4a5baeb..b16f7f3 100644
--- a/slowquant/unitary_coupled_cluster/ups_wavefunction.py
+++ b/slowquant/unitary_coupled_cluster/ups_wavefunction.py
@@ -896,6 +896,8 @@ class WaveFunctionUPS:
                 self._old_opt_parameters = np.zeros(len(self.kappa_idx)) + 10**20
                 self._E_opt_old = 0.0
                 res = optimizer.minimize([0.0] * len(self.kappa_idx))
+                # The last point evaluated by the optimizer need not be the one it returns.
+                self.kappa = res.x.tolist()
                 for i in range(len(self.kappa)):
                     self._kappa[i] = 0.0
                     self._kappa_old[i] = 0.0
@@ -1010,13 +1012,15 @@ class WaveFunctionUPS:
                 parameters,
             )
         if orbital_optimization:
+            # The last point evaluated by the optimizer need not be the one it returns.
+            self.kappa = res.x[: len(self.kappa)].tolist()
             self.thetas = res.x[len(self.kappa) :].tolist()
             for i in range(len(self.kappa)):
                 self._kappa[i] = 0.0
                 self._kappa_old[i] = 0.0
         else:
             self.thetas = res.x.tolist()
-        self._energy_elec = res.fun
+            self._energy_elec = res.fun
 
     def _calc_energy_optimization(
         self, parameters: list[float], theta_optimization: bool, kappa_optimization: bool
-- 
2.43.0


From 74c0af809dfa11ac67db1a50a15bae436f359d97 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:40 +0000
Subject: [PATCH 12/35] fix: hand out a copy of the circuit parameters

---
 slowquant/qiskit_interface/interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slowquant/qiskit_interface/interface.py b/slowquant/qiskit_interface/interface.py
index 0217540..dc3ee19 100644
--- a/slowquant/qiskit_interface/interface.py
+++ b/slowquant/qiskit_interface/interface.py
@@ -425,7 +425,7 @@ class QuantumInterface:
         Returns:
             Ansatz parameters.
         """
-        return self._parameters
+        return self._parameters.copy()
 
     @parameters.setter
     def parameters(
-- 
2.43.0


From 0af30aeb5b2f5f9fd70c59375259df7bdbaab79a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:09 +0000
Subject: [PATCH 13/35] fix: leave the orbitals of circuit wave functions at
 the optimum

---
 slowquant/qiskit_interface/circuit_wavefunction.py    | 6 +++++-
 slowquant/qiskit_interface/sa_circuit_wavefunction.py | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/slowquant/qiskit_interface/circuit_wavefunction.py b/slowquant/qiskit_interface/circuit_wavefunction.py
index 90922cc..825f643 100644
--- a/slowquant/qiskit_interface/circuit_wavefunction.py
+++ b/slowquant/qiskit_interface/circuit_wavefunction.py
@@ -1000,6 +1000,8 @@ class WaveFunctionCircuit:
                     ),
                 )
                 res = optimizer.minimize([0.0] * len(self.kappa_idx))
+                # The last point evaluated by the optimizer need not be the one it returns.
+                self.kappa = res.x.tolist()
                 for i in range(len(self.kappa)):
                     self._kappa[i] = 0.0
                     self._kappa_old[i] = 0.0
@@ -1124,13 +1126,15 @@ class WaveFunctionCircuit:
             parameters, extra_options={"R": self.QI.grad_param_R, "param_names": self.QI.param_names}
         )
         if orbital_optimization:
+            # The last point evaluated by the optimizer need not be the one it returns.
+            self.kappa = res.x[: len(self.kappa)].tolist()
             self.thetas = res.x[len(self.kappa) :].tolist()
             for i in range(len(self.kappa)):
                 self._kappa[i] = 0.0
                 self._kappa_old[i] = 0.0
         else:
             self.thetas = res.x.tolist()
-        self._energy_elec = res.fun
+            self._energy_elec = res.fun
 
     def _calc_energy_optimization(
         self, parameters: list[float], theta_optimization: bool, kappa_optimization: bool
diff --git a/slowquant/qiskit_interface/sa_circuit_wavefunction.py b/slowquant/qiskit_interface/sa_circuit_wavefunction.py
index 2e1e02a..38728ed 100644
--- a/slowquant/qiskit_interface/sa_circuit_wavefunction.py
+++ b/slowquant/qiskit_interface/sa_circuit_wavefunction.py
@@ -589,6 +589,8 @@ class WaveFunctionSACircuit:
                 self._old_opt_parameters = np.zeros(len(self.kappa_idx)) + 10**20
                 self._E_opt_old = 0.0
                 res = optimizer.minimize([0.0] * len(self.kappa_idx))
+                # The last point evaluated by the optimizer need not be the one it returns.
+                self.kappa = res.x.tolist()
                 for i in range(len(self.kappa)):
                     self._kappa[i] = 0.0
                     self._kappa_old[i] = 0.0
@@ -707,6 +709,8 @@ class WaveFunctionSACircuit:
             extra_options={"R": self.QI.grad_param_R, "param_names": self.QI.param_names},
         )
         if orbital_optimization:
+            # The last point evaluated by the optimizer need not be the one it returns.
+            self.kappa = res.x[: len(self.kappa)].tolist()
             self.thetas = res.x[len(self.kappa) :].tolist()
             for i in range(len(self.kappa)):
                 self._kappa[i] = 0.0
@@ -715,7 +719,8 @@ class WaveFunctionSACircuit:
             self.thetas = res.x.tolist()
         # Subspace diagonalization
         self._do_state_ci()
-        self._sa_energy = res.fun
+        if not orbital_optimization:
+            self._sa_energy = res.fun
 
     def _do_state_ci(self) -> None:
         r"""Do subspace diagonalisation.
-- 
2.43.0


From ebe21580ca2700d702867d87cef2fcbf3a609921 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:46 +0000
Subject: [PATCH 14/35] fix: start the orbital step of the two-step
 optimization from the current orbitals

---
 slowquant/qiskit_interface/circuit_wavefunction.py       | 2 +-
 slowquant/qiskit_interface/sa_circuit_wavefunction.py    | 2 +-
 slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py | 2 +-
 slowquant/unitary_coupled_cluster/ucc_wavefunction.py    | 2 +-
 slowquant/unitary_coupled_cluster/ups_wavefunction.py    | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/slowquant/qiskit_interface/circuit_wavefunction.py b/slowquant/qiskit_interface/circuit_wavefunction.py
index 825f643..fbdf2ee 100644
--- a/slowquant/qiskit_interface/circuit_wavefunction.py
+++ b/slowquant/qiskit_interface/circuit_wavefunction.py
@@ -999,7 +999,7 @@ class WaveFunctionCircuit:
                         else None
                     ),
                 )
-                res = optimizer.minimize([0.0] * len(self.kappa_idx))
+                res = optimizer.minimize(self.kappa)
                 # The last point evaluated by the optimizer need not be the one it returns.
                 self.kappa = res.x.tolist()
                 for i in range(len(self.kappa)):
diff --git a/slowquant/qiskit_interface/sa_circuit_wavefunction.py b/slowquant/qiskit_interface/sa_circuit_wavefunction.py
index 38728ed..6bb9481 100644
--- a/slowquant/qiskit_interface/sa_circuit_wavefunction.py
+++ b/slowquant/qiskit_interface/sa_circuit_wavefunction.py
@@ -588,7 +588,7 @@ class WaveFunctionSACircuit:
                 )
                 self._old_opt_parameters = np.zeros(len(self.kappa_idx)) + 10**20
                 self._E_opt_old = 0.0
-                res = optimizer.minimize([0.0] * len(self.kappa_idx))
+                res = optimizer.minimize(self.kappa)
                 # The last point evaluated by the optimizer need not be the one it returns.
                 self.kappa = res.x.tolist()
                 for i in range(len(self.kappa)):
diff --git a/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py b/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
index 32a4365..c364c4b 100644
--- a/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
+++ b/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
@@ -612,7 +612,7 @@ class WaveFunctionSAUPS:
                 )
                 self._old_opt_parameters = np.zeros(len(self.kappa_idx)) + 10**20
                 self._E_opt_old = 0.0
-                res = optimizer.minimize([0.0] * len(self.kappa_idx))
+                res = optimizer.minimize(self.kappa)
                 # The last point evaluated by the optimizer need not be the one it returns.
                 self.kappa = res.x.tolist()
                 for i in range(len(self.kappa)):
diff --git a/slowquant/unitary_coupled_cluster/ucc_wavefunction.py b/slowquant/unitary_coupled_cluster/ucc_wavefunction.py
index d7fd889..daa0510 100644
--- a/slowquant/unitary_coupled_cluster/ucc_wavefunction.py
+++ b/slowquant/unitary_coupled_cluster/ucc_wavefunction.py
@@ -832,7 +832,7 @@ class WaveFunctionUCC:
                 )
                 self._old_opt_parameters = np.zeros(len(self.kappa_idx)) + 10**20
                 self._E_opt_old = 0.0
-                res = optimizer.minimize([0.0] * len(self.kappa_idx))
+                res = optimizer.minimize(self.kappa)
                 # The last point evaluated by the optimizer need not be the one it returns.
                 self.kappa = res.x.tolist()
                 for i in range(len(self.kappa)):
diff --git a/slowquant/unitary_coupled_cluster/ups_wavefunction.py b/slowquant/unitary_coupled_cluster/ups_wavefunction.py
index b16f7f3..1528ea1 100644
--- a/slowquant/unitary_coupled_cluster/ups_wavefunction.py
+++ b/slowquant/unitary_coupled_cluster/ups_wavefunction.py
@@ -895,7 +895,7 @@ class WaveFunctionUPS:
                 )
                 self._old_opt_parameters = np.zeros(len(self.kappa_idx)) + 10**20
                 self._E_opt_old = 0.0
-                res = optimizer.minimize([0.0] * len(self.kappa_idx))
+                res = optimizer.minimize(self.kappa)
                 # The last point evaluated by the optimizer need not be the one it returns.
                 self.kappa = res.x.tolist()
                 for i in range(len(self.kappa)):
-- 
2.43.0


From fab4734a71a84f1371151516cbf38dcfa69123ff Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:30 +0000
Subject: [PATCH 15/35] fix: orthonormal states from the state-averaged
 subspace diagonalisation

---
 slowquant/qiskit_interface/sa_circuit_wavefunction.py    | 5 +----
 slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/slowquant/qiskit_interface/sa_circuit_wavefunction.py b/slowquant/qiskit_interface/sa_circuit_wavefunction.py
index 6bb9481..720c7ad 100644
--- a/slowquant/qiskit_interface/sa_circuit_wavefunction.py
+++ b/slowquant/qiskit_interface/sa_circuit_wavefunction.py
@@ -741,10 +741,7 @@ class WaveFunctionSACircuit:
                 state_H[i, j] = state_H[j, i] = self.QI.quantum_expectation_value_csfs(
                     (coeffs_i, csf_i), H, (coeffs_j, csf_j)
                 )
-        eigval, eigvec = scipy.linalg.eig(state_H)
-        sorting = np.argsort(eigval)
-        self._state_energies = np.real(eigval[sorting])
-        self._state_ci_coeffs = np.real(eigvec[:, sorting])
+        self._state_energies, self._state_ci_coeffs = scipy.linalg.eigh(state_H)
 
     @property
     def energy_states(self) -> np.ndarray:
diff --git a/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py b/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
index c364c4b..2f4facb 100644
--- a/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
+++ b/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
@@ -769,10 +769,7 @@ class WaveFunctionSAUPS:
                     do_folding=False,
                 )
         # Diagonalize
-        eigval, eigvec = scipy.linalg.eig(state_H)
-        sorting = np.argsort(eigval)
-        self._state_energies = np.real(eigval[sorting])
-        self._state_ci_coeffs = np.real(eigvec[:, sorting])
+        self._state_energies, self._state_ci_coeffs = scipy.linalg.eigh(state_H)
 
     @property
     def energy_states(self) -> np.ndarray:
-- 
2.43.0


From e173decfa1ecc8e9cc95dcd00d36baab5f21d0e8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:09 +0000
Subject: [PATCH 16/35] fix: one-step orbital optimization without
 non-redundant rotations

---
 slowquant/qiskit_interface/circuit_wavefunction.py       | 2 +-
 slowquant/qiskit_interface/sa_circuit_wavefunction.py    | 2 +-
 slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py | 2 +-
 slowquant/unitary_coupled_cluster/ucc_wavefunction.py    | 2 +-
 slowquant/unitary_coupled_cluster/ups_wavefunction.py    | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/slowquant/qiskit_interface/circuit_wavefunction.py b/slowquant/qiskit_interface/circuit_wavefunction.py
index fbdf2ee..04c4b05 100644
--- a/slowquant/qiskit_interface/circuit_wavefunction.py
+++ b/slowquant/qiskit_interface/circuit_wavefunction.py
@@ -1188,7 +1188,7 @@ class WaveFunctionCircuit:
             self.kappa = parameters[:num_kappa]
         if theta_optimization:
             self.thetas = parameters[num_kappa:]
-        if kappa_optimization:
+        if kappa_optimization and num_kappa != 0:
             gradient[:num_kappa] = get_orbital_gradient(
                 self.h_mo,
                 self.g_mo,
diff --git a/slowquant/qiskit_interface/sa_circuit_wavefunction.py b/slowquant/qiskit_interface/sa_circuit_wavefunction.py
index 720c7ad..8ab5973 100644
--- a/slowquant/qiskit_interface/sa_circuit_wavefunction.py
+++ b/slowquant/qiskit_interface/sa_circuit_wavefunction.py
@@ -889,7 +889,7 @@ class WaveFunctionSACircuit:
             self.kappa = parameters[:num_kappa]
         if theta_optimization:
             self.thetas = parameters[num_kappa:]
-        if kappa_optimization:
+        if kappa_optimization and num_kappa != 0:
             gradient[:num_kappa] = get_orbital_gradient(
                 self.h_mo,
                 self.g_mo,
diff --git a/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py b/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
index 2f4facb..87ba171 100644
--- a/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
+++ b/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
@@ -940,7 +940,7 @@ class WaveFunctionSAUPS:
             self.kappa = parameters[:num_kappa]
         if theta_optimization:
             self.thetas = parameters[num_kappa:]
-        if kappa_optimization:
+        if kappa_optimization and num_kappa != 0:
             gradient[:num_kappa] = get_orbital_gradient(
                 self.h_mo,
                 self.g_mo,
diff --git a/slowquant/unitary_coupled_cluster/ucc_wavefunction.py b/slowquant/unitary_coupled_cluster/ucc_wavefunction.py
index daa0510..f707098 100644
--- a/slowquant/unitary_coupled_cluster/ucc_wavefunction.py
+++ b/slowquant/unitary_coupled_cluster/ucc_wavefunction.py
@@ -1053,7 +1053,7 @@ class WaveFunctionUCC:
             self.kappa = parameters[:num_kappa]
         if theta_optimization:
             self.thetas = parameters[num_kappa:]
-        if kappa_optimization:
+        if kappa_optimization and num_kappa != 0:
             gradient[:num_kappa] = get_orbital_gradient(
                 self.h_mo,
                 self.g_mo,
diff --git a/slowquant/unitary_coupled_cluster/ups_wavefunction.py b/slowquant/unitary_coupled_cluster/ups_wavefunction.py
index 1528ea1..38b421d 100644
--- a/slowquant/unitary_coupled_cluster/ups_wavefunction.py
+++ b/slowquant/unitary_coupled_cluster/ups_wavefunction.py
@@ -1083,7 +1083,7 @@ class WaveFunctionUPS:
             self.kappa = parameters[:num_kappa]
         if theta_optimization:
             self.thetas = parameters[num_kappa:]
-        if kappa_optimization:
+        if kappa_optimization and num_kappa != 0:
             gradient[:num_kappa] = get_orbital_gradient(
                 self.h_mo,
                 self.g_mo,
-- 
2.43.0


From e2de421945891978f7d870d2265203607dafc148 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:38 +0000
Subject: [PATCH 17/35] fix: post-selection of parity-mapped outcomes without
 two-qubit reduction or with unequal electron numbers

---
 slowquant/qiskit_interface/util.py | 51 +++++++++++++++---------------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/slowquant/qiskit_interface/util.py b/slowquant/qiskit_interface/util.py
index 390fe4b..4fc2b49 100644
--- a/slowquant/qiskit_interface/util.py
+++ b/slowquant/qiskit_interface/util.py
@@ -909,7 +909,9 @@ def postselection(
         \left|01\right> \rightarrow 0\left|01\right>p
 
     Where :math:`p` is zero for even number of electrons and one for odd number of electrons.
-    This counting is done independently for the :math:`\alpha` part and :math:`\beta` part.
+    The padding with :math:`p` is only needed if the mapper does two-qubit reduction.
+    This counting is done independently for the :math:`\alpha` part and :math:`\beta` part,
+    with the :math:`\beta` part starting from the parity of the :math:`\alpha` part.
 
     Args:
         dist: Measured quasi-distribution.
@@ -936,32 +938,16 @@ def postselection(
         for bitint, val in dist.items():
             bitstr = format(bitint, f"0{num_qubits}b")
             num_a = len(bitstr) // 2
-            bitstr_a = bitstr[num_a:]
-            bitstr_b = bitstr[:num_a]
-            current_parity = "0"
-            change_counter = 0
-            for bit in bitstr_b:
-                if bit != current_parity:
-                    current_parity = bit
-                    change_counter += 1
-            if current_parity == "1" and num_elec[1] % 2 == 0:
-                change_counter += 1
-                current_parity = "0"
-            elif current_parity == "0" and num_elec[1] % 2 == 1:
-                change_counter += 1
-                current_parity = "1"
-            if change_counter != num_elec[0]:
+            # Remember that in Qiskit notation you read |0101> from right to left.
+            parities_a = bitstr[num_a:][::-1]
+            parities_b = bitstr[:num_a][::-1]
+            if mapper.num_particles is not None:
+                # Two-qubit reduction, the last parity of each spin is not measured.
+                parities_a += str(num_elec[0] % 2)
+                parities_b += str((num_elec[0] + num_elec[1]) % 2)
+            if _count_parity_changes("0", parities_a) != num_elec[0]:
                 continue
-            change_counter = 0
-            for bit in bitstr_a:
-                if bit != current_parity:
-                    current_parity = bit
-                    change_counter += 1
-            if current_parity == "1" and (num_elec[0] + num_elec[1]) % 2 == 0:
-                change_counter += 1
-            elif current_parity == "0" and (num_elec[0] + num_elec[1]) % 2 == 1:
-                change_counter += 1
-            if change_counter != num_elec[1]:
+            if _count_parity_changes(parities_a[-1], parities_b) != num_elec[1]:
                 continue
             new_dist[int(bitstr, 2)] = val
             prob_sum += val
@@ -973,6 +959,19 @@ def postselection(
     return new_dist
 
 
+def _count_parity_changes(start: str, parities: str) -> int:
+    """Count number of changes between neighbouring parities.
+
+    Args:
+        start: Parity before the first element.
+        parities: String of parities.
+
+    Returns:
+        Number of changes.
+    """
+    return sum(1 for parity, last in zip(parities, start + parities) if parity != last)
+
+
 def f2q(i: int, num_orbs: int) -> int:
     r"""Convert fermionic index to qubit index.
 
-- 
2.43.0


From 13ad071ba5b5ced0f84b472e261a71ef1db3ed28 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:38 +0000
Subject: [PATCH 18/35] fix: no_coeffs option of the grouped variance

---
 slowquant/qiskit_interface/interface.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/slowquant/qiskit_interface/interface.py b/slowquant/qiskit_interface/interface.py
index dc3ee19..1efb2e1 100644
--- a/slowquant/qiskit_interface/interface.py
+++ b/slowquant/qiskit_interface/interface.py
@@ -1242,9 +1242,8 @@ class QuantumInterface:
                     # loop over paulis in group (second sum over l): group random variable
                     group_var = 0.0
                     for pauli in group_paulis:
-                        group_var += coeff_dict[pauli] * get_bitstring_sign(
-                            pauli, key
-                        )  # \sum_l c_l <b|P_l|b>
+                        coeff = 1 if no_coeffs else coeff_dict[pauli]
+                        group_var += coeff * get_bitstring_sign(pauli, key)  # \sum_l c_l <b|P_l|b>
 
                     sample_mean += value * group_var  # \sum_b p(b) \sum_l c_l <b|P_l|b>
                     sample_mean_sq += value * group_var**2  # \sum_b p(b) (\sum_l c_l <b|P_l|b>)^2
-- 
2.43.0


From 7ad4051c8020e7a8547c84a05717b66ced41b95a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:54 +0000
Subject: [PATCH 19/35] fix: key of saved Pauli distributions for
 perfect-pairing and custom circuits

---
 slowquant/qiskit_interface/interface.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/slowquant/qiskit_interface/interface.py b/slowquant/qiskit_interface/interface.py
index 1efb2e1..f696e4c 100644
--- a/slowquant/qiskit_interface/interface.py
+++ b/slowquant/qiskit_interface/interface.py
@@ -166,6 +166,7 @@ class QuantumInterface:
             self.state_circuit: QuantumCircuit = QuantumCircuit(
                 self.ansatz.num_qubits
             )  # empty state as custom circuit is passed
+            self._reference_det = "0" * self.num_spin_orbs
         elif "do_pp" in self.ansatz_options.keys() and self.ansatz_options["do_pp"]:
             # HF in pp-tUPS ordering
             if not isinstance(self.mapper, JordanWignerMapper):
@@ -196,8 +197,12 @@ class QuantumInterface:
             ):
                 raise ValueError("Perfect pairing determinant violates orbital or electron numbers")
             self.state_circuit = get_determinant_reference(pp_det, self.num_orbs, self.mapper)
+            self._reference_det = pp_det
         else:
             self.state_circuit = HartreeFock(num_orbs, num_elec, self.mapper)
+            self._reference_det = "".join(
+                str(int(i < num_elec[0])) + str(int(i < num_elec[1])) for i in range(num_orbs)
+            )
         self.num_qubits = self.state_circuit.num_qubits
 
         # Ansatz Circuit
@@ -1005,11 +1010,9 @@ class QuantumInterface:
         Returns:
             Expectation value of operator.
         """
-        # Get HF determinant string
+        # Get determinant string of the state preparation
         if det is None:
-            det = "1" * (self.num_elec[0] + self.num_elec[1]) + "0" * (
-                self.num_spin_orbs - (self.num_elec[0] + self.num_elec[1])
-            )
+            det = self._reference_det
         det_int = int(det, 2)
         if run_circuit is None:
             run_circuit = self.circuit
@@ -1189,11 +1192,7 @@ class QuantumInterface:
         Returns:
             Variance of expectation value.
         """
-        det_int = int(
-            "1" * (self.num_elec[0] + self.num_elec[1])
-            + "0" * (self.num_spin_orbs - (self.num_elec[0] + self.num_elec[1])),
-            2,
-        )
+        det_int = int(self._reference_det, 2)
         if custom_parameters is None:
             run_parameters = self.parameters
         else:
-- 
2.43.0


From b10070bfc656abbb3d4ce40e718a155915fbc43c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:59 +0000
Subject: [PATCH 20/35] fix: keep all outcomes of a distribution corrected by
 read-out mitigation

---
 slowquant/qiskit_interface/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slowquant/qiskit_interface/util.py b/slowquant/qiskit_interface/util.py
index 4fc2b49..548c577 100644
--- a/slowquant/qiskit_interface/util.py
+++ b/slowquant/qiskit_interface/util.py
@@ -609,8 +609,8 @@ def correct_distribution(dist: dict[int, float], M: np.ndarray) -> dict[int, flo
     # Apply M error mitigation matrix
     C_new = M @ C
     # Convert columnvector of probabilities to bitstring distribution
-    for bitint, prob in dist.items():
-        dist[bitint] = C_new[bitint]
+    for bitint, prob in enumerate(C_new):
+        dist[bitint] = prob
     return dist
 
 
-- 
2.43.0


From cc03e01b6d23ebba4ef7aaee1e9ca4d200533d39 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:16 +0000
Subject: [PATCH 21/35] fix: order of the layout swaps when re-ordering the
 read-out matrix

---
 slowquant/qiskit_interface/util.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/slowquant/qiskit_interface/util.py b/slowquant/qiskit_interface/util.py
index 548c577..c8e9685 100644
--- a/slowquant/qiskit_interface/util.py
+++ b/slowquant/qiskit_interface/util.py
@@ -676,9 +676,8 @@ def correct_distribution_with_layout(
 
     # Create new M
     M = M_in.copy()
-    for swap in swaps:
+    for swap in swaps[::-1]:
         idx = np.array(swap_indices(num_qubits, swap))
-        print(idx)
         M = M[idx, :][:, idx]
     M_inv = np.linalg.inv(M)
 
-- 
2.43.0


From 3465214bf9efd4943da849c1017d01b9c46e441f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:03 +0000
Subject: [PATCH 22/35] fix: discard saved distributions and read-out matrix
 when the pass manager changes

---
 slowquant/qiskit_interface/interface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/slowquant/qiskit_interface/interface.py b/slowquant/qiskit_interface/interface.py
index f696e4c..9c537dd 100644
--- a/slowquant/qiskit_interface/interface.py
+++ b/slowquant/qiskit_interface/interface.py
@@ -406,6 +406,9 @@ class QuantumInterface:
         # In case of switching to new PassManager in later workflow
         if pass_manager_options is not None and hasattr(self, "circuit") and not redo_ISA:
             print("Change in PassManager. Reconstructing circuit.")
+            # Saved distributions and read-out matrix belong to the old layout.
+            self._reset_cliques()
+            self._reset_M()
             self.construct_circuit(
                 self.occ_idx,
                 self.unocc_idx,
-- 
2.43.0


From 90896e58136956427888927bfdb7c9bc82867346 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:02 +0000
Subject: [PATCH 23/35] fix: excitation vectors of circuit linear response
 without orbital rotations

---
 slowquant/qiskit_interface/linear_response/selfconsistent.py | 5 +++++
 slowquant/qiskit_interface/linear_response/statetransfer.py  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/slowquant/qiskit_interface/linear_response/selfconsistent.py b/slowquant/qiskit_interface/linear_response/selfconsistent.py
index 4cf321b..b1fc876 100644
--- a/slowquant/qiskit_interface/linear_response/selfconsistent.py
+++ b/slowquant/qiskit_interface/linear_response/selfconsistent.py
@@ -66,6 +66,11 @@ class quantumLR(quantumLRBaseClass):
             raise NotImplementedError(
                 "Found orbital rotations and skip_orbital_rotations is set to False. Self-consistent is only implemented for active space parameters."
             )
+        if skip_orbital_rotations:
+            # Only active space parameters are left in the response equations
+            self.q_ops = []
+            self.num_q = 0
+            self.num_params = self.num_G
         H_active = self.H_0i_0a.get_folded_operator(*self.orbs)
         if do_gradients:
             grad = np.zeros(2 * self.num_G)
diff --git a/slowquant/qiskit_interface/linear_response/statetransfer.py b/slowquant/qiskit_interface/linear_response/statetransfer.py
index 6ac24f9..041280f 100644
--- a/slowquant/qiskit_interface/linear_response/statetransfer.py
+++ b/slowquant/qiskit_interface/linear_response/statetransfer.py
@@ -50,6 +50,11 @@ class quantumLR(quantumLRBaseClass):
             raise NotImplementedError(
                 "Found orbital rotations and skip_orbital_rotations is set to False. Self-consistent is only implemented for active space parameters."
             )
+        if skip_orbital_rotations:
+            # Only active space parameters are left in the response equations
+            self.q_ops = []
+            self.num_q = 0
+            self.num_params = self.num_G
         H_active = self.H_0i_0a.get_folded_operator(*self.orbs)
         if do_gradients:
             grad = np.zeros(2 * self.num_G)
-- 
2.43.0


From 9a97e1a0a8d3de84f530a40f6a98aa7794045a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:48 +0000
Subject: [PATCH 24/35] fix: accuracy of the Boys function of high order

---
 .../molecularintegrals/integralfunctions.py   | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/slowquant/molecularintegrals/integralfunctions.py b/slowquant/molecularintegrals/integralfunctions.py
index 074f09d..7606654 100644
--- a/slowquant/molecularintegrals/integralfunctions.py
+++ b/slowquant/molecularintegrals/integralfunctions.py
@@ -78,22 +78,23 @@ def boys_function(n: int, z: float) -> float:
         F = 1.0
     elif n == 0:
         F = (np.pi / (4.0 * z)) ** 0.5 * math.erf(z**0.5)
-    elif z > 25:
+    elif z > 35 + 2 * n:
         # Long range approximation
         F = factorial2(2 * n - 1) / (2.0 ** (n + 1.0)) * (np.pi / (z ** (2.0 * n + 1.0))) ** 0.5
     elif z < 10**-10:
         # special case of z = 0
         F = 1.0 / (2.0 * n + 1.0)
     else:
-        F = 0.0
-        threshold = 10**-12
-        for i in range(0, 1000):
-            Fcheck = F
-            F += (2.0 * z) ** i / (factorial2(2 * n + 2 * i + 1))
-            Fcheck -= F
-            if abs(Fcheck) < threshold:
+        # Terms relative to the leading one, such that the threshold is relative to F.
+        F = 1.0
+        term = 1.0
+        threshold = 10**-16
+        for i in range(1, 1000):
+            term *= 2.0 * z / (2.0 * n + 2.0 * i + 1.0)
+            F += term
+            if term < threshold * F:
                 break
-        F *= np.exp(-z) * factorial2(2 * n - 1)
+        F *= np.exp(-z) / (2.0 * n + 1.0)
     return F
 
 
-- 
2.43.0


From 31bec0a7f9572564660693c9321bd2c03e275b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:48 +0000
Subject: [PATCH 25/35] fix: empty lines in .xyz files

---
 slowquant/molecule/moleculeclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slowquant/molecule/moleculeclass.py b/slowquant/molecule/moleculeclass.py
index 2bb3d51..3093d9d 100644
--- a/slowquant/molecule/moleculeclass.py
+++ b/slowquant/molecule/moleculeclass.py
@@ -36,7 +36,7 @@ class _Molecule:
             with open(molecule_file, "r", encoding="UTF-8") as file:
                 self.atoms = []
                 for i, line in enumerate(file):
-                    if i < 2:
+                    if i < 2 or len(line.strip()) == 0:
                         continue
                     self.atoms.append(
                         Atom(
-- 
2.43.0


From b2d05677a3210dad8eeb5b7c0591d01aed267e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:48 +0000
Subject: [PATCH 26/35] fix: refuse basis sets with angular momenta that are
 not implemented

---
 slowquant/molecule/basis_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slowquant/molecule/basis_reader.py b/slowquant/molecule/basis_reader.py
index 370f059..060557a 100644
--- a/slowquant/molecule/basis_reader.py
+++ b/slowquant/molecule/basis_reader.py
@@ -36,7 +36,7 @@ def read_basis(atom_name: str, basis_set: str) -> tuple[np.ndarray, np.ndarray,
             if line[0] != " ":
                 # Found new atom in file.
                 break
-            if "s" in line or "p" in line or "d" in line or "f" in line:
+            if line.split()[1].isalpha():
                 angular = line.split()[1]
                 number_primitives = int(line.split()[0])
                 exponents_primitive: list[float] = []
-- 
2.43.0


From 4a696cb4bb2c0de2e0b2fe71f89ec5f582b642cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:34 +0000
Subject: [PATCH 27/35] fix: linearly dependent error matrices in DIIS

---
 slowquant/hartreefock/diis.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/slowquant/hartreefock/diis.py b/slowquant/hartreefock/diis.py
index ef41dad..6e56c66 100644
--- a/slowquant/hartreefock/diis.py
+++ b/slowquant/hartreefock/diis.py
@@ -47,6 +47,20 @@ class DIIS:
         for i, (F, D) in enumerate(zip(self.fock_matrices, self.density_matrices)):
             error_matrices[i, :, :] = np.dot(np.dot(F, D), S) - np.dot(np.dot(S, D), F)
 
+        # Drop the oldest matrices while the error matrices are linearly dependent,
+        # the extrapolation would otherwise be undetermined.
+        while len(self.fock_matrices) > 1:
+            norms = np.linalg.norm(error_matrices, axis=(1, 2))
+            if np.all(norms > 0.0):
+                normalized = (error_matrices / norms[:, None, None]).reshape(len(norms), -1)
+                if np.linalg.eigvalsh(normalized @ normalized.T)[0] > 10**-10:
+                    break
+            self.fock_matrices.pop(0)
+            self.density_matrices.pop(0)
+            error_matrices = error_matrices[1:]
+        if len(self.fock_matrices) == 1:
+            return fock_matrix
+
         # Build B matrix, and b0 vector
         B = np.zeros((len(self.fock_matrices) + 1, len(self.fock_matrices) + 1))
         B[-1, :] = B[:, -1] = -1
-- 
2.43.0


From 01d1161be67ee76180d4f812d50ec0e417ea2ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:34 +0000
Subject: [PATCH 28/35] fix: unrestricted Hartree-Fock without virtual orbitals

---
 slowquant/hartreefock/unrestricted_hartreefock_in_memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slowquant/hartreefock/unrestricted_hartreefock_in_memory.py b/slowquant/hartreefock/unrestricted_hartreefock_in_memory.py
index 7d8225b..f25ab44 100644
--- a/slowquant/hartreefock/unrestricted_hartreefock_in_memory.py
+++ b/slowquant/hartreefock/unrestricted_hartreefock_in_memory.py
@@ -39,7 +39,7 @@ def run_unrestricted_hartree_fock(
     C0_alpha = np.transpose(np.dot(S_sqrt, C0prime))
     C0_beta = np.transpose(np.dot(S_sqrt, C0prime))
     # Break spatial symmetry if system is closed shell
-    if number_electrons_alpha == number_electrons_beta:
+    if number_electrons_alpha == number_electrons_beta and number_electrons_alpha < len(C0_alpha):
         C_HOMO = C0_alpha[number_electrons_alpha - 1]
         C_LUMO = C0_alpha[number_electrons_alpha]
         C0_alpha[number_electrons_alpha - 1] = (
-- 
2.43.0


From 698cafa557abc9151721582f229b87669c82671e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:34 +0000
Subject: [PATCH 29/35] fix: keep the content added to the log

---
 slowquant/logger.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/slowquant/logger.py b/slowquant/logger.py
index 0a8eddb..e74a37b 100644
--- a/slowquant/logger.py
+++ b/slowquant/logger.py
@@ -17,8 +17,6 @@ class _Logger:
             content = f"WARNING: {content}"
         if self.print_output:
             print(content, end="")
-            self.log.join(content)
         elif is_warning and self.print_warnings:
             print(content, end="")
-            self.log.join(content)
-        self.log.join(content)
+        self.log += content
-- 
2.43.0


From caedc6d55cb4d36fe182a29e518ad53d8e849fe3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:07 +0000
Subject: [PATCH 30/35] fix: accuracy of the Boys function of high order,
 rounding as close to the former one as possible

---
 slowquant/molecularintegrals/integralfunctions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/slowquant/molecularintegrals/integralfunctions.py b/slowquant/molecularintegrals/integralfunctions.py
index 7606654..603074c 100644
--- a/slowquant/molecularintegrals/integralfunctions.py
+++ b/slowquant/molecularintegrals/integralfunctions.py
@@ -85,16 +85,16 @@ def boys_function(n: int, z: float) -> float:
         # special case of z = 0
         F = 1.0 / (2.0 * n + 1.0)
     else:
-        # Terms relative to the leading one, such that the threshold is relative to F.
-        F = 1.0
-        term = 1.0
+        # Terms relative to F.
         threshold = 10**-16
+        term = 1.0 / (2.0 * n + 1.0)
+        F = term
         for i in range(1, 1000):
             term *= 2.0 * z / (2.0 * n + 2.0 * i + 1.0)
             F += term
             if term < threshold * F:
                 break
-        F *= np.exp(-z) / (2.0 * n + 1.0)
+        F *= np.exp(-z)
     return F
 
 
-- 
2.43.0


From 80c18ba48345044b80d5093b5c04bd339c24902f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:53 +0000
Subject: [PATCH 31/35] fix: wave functions keep their own copy of the orbital
 coefficients

---
 slowquant/qiskit_interface/circuit_wavefunction.py       | 2 +-
 slowquant/qiskit_interface/sa_circuit_wavefunction.py    | 2 +-
 slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py | 2 +-
 slowquant/unitary_coupled_cluster/ucc_wavefunction.py    | 2 +-
 slowquant/unitary_coupled_cluster/ups_wavefunction.py    | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/slowquant/qiskit_interface/circuit_wavefunction.py b/slowquant/qiskit_interface/circuit_wavefunction.py
index 04c4b05..6b30095 100644
--- a/slowquant/qiskit_interface/circuit_wavefunction.py
+++ b/slowquant/qiskit_interface/circuit_wavefunction.py
@@ -234,7 +234,7 @@ class WaveFunctionCircuit:
             pp_mo_coeffs[:, hole_spatial + part_spatial] = pp_mo_coeffs[:, part_spatial + hole_spatial]
             self._c_mo = pp_mo_coeffs
         else:
-            self._c_mo = mo_coeffs
+            self._c_mo = mo_coeffs.copy()
         # Setup Quantum Interface
         self.QI = quantum_interface
         self.QI.construct_circuit(
diff --git a/slowquant/qiskit_interface/sa_circuit_wavefunction.py b/slowquant/qiskit_interface/sa_circuit_wavefunction.py
index 8ab5973..9f1cfbb 100644
--- a/slowquant/qiskit_interface/sa_circuit_wavefunction.py
+++ b/slowquant/qiskit_interface/sa_circuit_wavefunction.py
@@ -60,7 +60,7 @@ class WaveFunctionSACircuit:
                 f"Wave function only implemented for an even number of active electrons. Got; {cas[0]}"
             )
         self.int_gen = IntegralManager(integral_generator)
-        self._c_mo = mo_coeffs
+        self._c_mo = mo_coeffs.copy()
         self.inactive_spin_idx = []
         self.virtual_spin_idx = []
         self.active_spin_idx = []
diff --git a/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py b/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
index 87ba171..b08bc6b 100644
--- a/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
+++ b/slowquant/unitary_coupled_cluster/sa_ups_wavefunction.py
@@ -67,7 +67,7 @@ class WaveFunctionSAUPS:
             raise ValueError(f"cas must have two elements, got {len(cas)} elements.")
         # Init stuff
         self.int_gen = IntegralManager(integral_generator)
-        self._c_mo = mo_coeffs
+        self._c_mo = mo_coeffs.copy()
         self.inactive_spin_idx = []
         self.virtual_spin_idx = []
         self.active_spin_idx = []
diff --git a/slowquant/unitary_coupled_cluster/ucc_wavefunction.py b/slowquant/unitary_coupled_cluster/ucc_wavefunction.py
index f707098..04bef9e 100644
--- a/slowquant/unitary_coupled_cluster/ucc_wavefunction.py
+++ b/slowquant/unitary_coupled_cluster/ucc_wavefunction.py
@@ -55,7 +55,7 @@ class WaveFunctionUCC:
             raise ValueError(f"cas must have two elements, got {len(cas)} elements.")
         # Init stuff
         self.int_gen = IntegralManager(integral_generator)
-        self._c_mo = mo_coeffs
+        self._c_mo = mo_coeffs.copy()
         self.inactive_spin_idx = []
         self.virtual_spin_idx = []
         self.active_spin_idx = []
diff --git a/slowquant/unitary_coupled_cluster/ups_wavefunction.py b/slowquant/unitary_coupled_cluster/ups_wavefunction.py
index 38b421d..d3a243e 100644
--- a/slowquant/unitary_coupled_cluster/ups_wavefunction.py
+++ b/slowquant/unitary_coupled_cluster/ups_wavefunction.py
@@ -261,7 +261,7 @@ class WaveFunctionUPS:
             self._pp = True
         else:
             self.csf_coeffs[self.ci_info.det2idx[int(hf_det, 2)]] = 1
-            self._c_mo = mo_coeffs
+            self._c_mo = mo_coeffs.copy()
 
         self.ci_coeffs = np.copy(self.csf_coeffs)
         # Construct UPS Structure
-- 
2.43.0


From 80e756eb674d9c51c40454b97e74be2079e18817 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:27 +0000
Subject: [PATCH 32/35] fix: state-averaged circuit wave function keeps its own
 copy of the states

---
 slowquant/qiskit_interface/sa_circuit_wavefunction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slowquant/qiskit_interface/sa_circuit_wavefunction.py b/slowquant/qiskit_interface/sa_circuit_wavefunction.py
index 9f1cfbb..57d698a 100644
--- a/slowquant/qiskit_interface/sa_circuit_wavefunction.py
+++ b/slowquant/qiskit_interface/sa_circuit_wavefunction.py
@@ -199,7 +199,7 @@ class WaveFunctionSACircuit:
         self.kappa_redundant_idx = np.array(kappa_redundant_idx, dtype=int)
         self.kappa_hf_like_idx = np.array(kappa_hf_like_idx, dtype=int)
         self.num_states = len(states[0])
-        self.states = states
+        self.states = ([list(coeffs) for coeffs in states[0]], [list(csf) for csf in states[1]])
         # Setup Qiskit stuff
         self.QI = quantum_interface
         if self.QI.ansatz_options.get("do_pp"):
-- 
2.43.0


From 42fd6c17d4716564018a3684e09cd54a936c1157 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:27 +0000
Subject: [PATCH 33/35] fix: DIIS equations became singular when all errors
 were tiny

---
 slowquant/hartreefock/diis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/slowquant/hartreefock/diis.py b/slowquant/hartreefock/diis.py
index 6e56c66..5e7ab9e 100644
--- a/slowquant/hartreefock/diis.py
+++ b/slowquant/hartreefock/diis.py
@@ -70,6 +70,9 @@ class DIIS:
         for i, error_matrix_i in enumerate(error_matrices):
             for j, error_matrix_j in enumerate(error_matrices):
                 B[i, j] = np.trace(np.dot(error_matrix_i, error_matrix_j))
+        # The coefficients do not depend on the scale of the errors,
+        # but the equations become singular numerically when all errors are tiny.
+        B[:-1, :-1] /= np.max(np.abs(B[:-1, :-1]))
 
         # Solve B, b0 linear equation, and construct Fprime
         coefficients = np.linalg.solve(B, b0)
-- 
2.43.0


From 02c72b11abb96409a639e8304818667c3023fe85 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:31 +0000
Subject: [PATCH 34/35] fix: DIIS equations became singular when errors differ
 by many orders of magnitude

---
 slowquant/hartreefock/diis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/slowquant/hartreefock/diis.py b/slowquant/hartreefock/diis.py
index 5e7ab9e..7501a1a 100644
--- a/slowquant/hartreefock/diis.py
+++ b/slowquant/hartreefock/diis.py
@@ -47,11 +47,11 @@ class DIIS:
         for i, (F, D) in enumerate(zip(self.fock_matrices, self.density_matrices)):
             error_matrices[i, :, :] = np.dot(np.dot(F, D), S) - np.dot(np.dot(S, D), F)
 
-        # Drop the oldest matrices while the error matrices are linearly dependent,
-        # the extrapolation would otherwise be undetermined.
+        # Drop the oldest matrices while the error matrices are linearly dependent
+        # or of too different magnitude, the extrapolation would otherwise be undetermined.
         while len(self.fock_matrices) > 1:
             norms = np.linalg.norm(error_matrices, axis=(1, 2))
-            if np.all(norms > 0.0):
+            if np.all(norms > 10**-7 * np.max(norms)):
                 normalized = (error_matrices / norms[:, None, None]).reshape(len(norms), -1)
                 if np.linalg.eigvalsh(normalized @ normalized.T)[0] > 10**-10:
                     break
-- 
2.43.0


From 9b9c6054f75326f2b9f53732f75a350131e67e9c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:28 +0000
Subject: [PATCH 35/35] fix: DIIS equations of errors of different size

---
 slowquant/hartreefock/diis.py | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/slowquant/hartreefock/diis.py b/slowquant/hartreefock/diis.py
index 7501a1a..982a6e2 100644
--- a/slowquant/hartreefock/diis.py
+++ b/slowquant/hartreefock/diis.py
@@ -47,11 +47,11 @@ class DIIS:
         for i, (F, D) in enumerate(zip(self.fock_matrices, self.density_matrices)):
             error_matrices[i, :, :] = np.dot(np.dot(F, D), S) - np.dot(np.dot(S, D), F)
 
-        # Drop the oldest matrices while the error matrices are linearly dependent
-        # or of too different magnitude, the extrapolation would otherwise be undetermined.
+        # Drop the oldest matrices while the error matrices are linearly dependent,
+        # the extrapolation would otherwise be undetermined.
         while len(self.fock_matrices) > 1:
             norms = np.linalg.norm(error_matrices, axis=(1, 2))
-            if np.all(norms > 10**-7 * np.max(norms)):
+            if np.all(norms > 0.0):
                 normalized = (error_matrices / norms[:, None, None]).reshape(len(norms), -1)
                 if np.linalg.eigvalsh(normalized @ normalized.T)[0] > 10**-10:
                     break
@@ -61,23 +61,19 @@ class DIIS:
         if len(self.fock_matrices) == 1:
             return fock_matrix
 
-        # Build B matrix, and b0 vector
-        B = np.zeros((len(self.fock_matrices) + 1, len(self.fock_matrices) + 1))
-        B[-1, :] = B[:, -1] = -1
-        B[-1, -1] = 0
-        b0 = np.zeros(len(self.fock_matrices) + 1)
-        b0[-1] = -1
-        for i, error_matrix_i in enumerate(error_matrices):
-            for j, error_matrix_j in enumerate(error_matrices):
-                B[i, j] = np.trace(np.dot(error_matrix_i, error_matrix_j))
-        # The coefficients do not depend on the scale of the errors,
-        # but the equations become singular numerically when all errors are tiny.
-        B[:-1, :-1] /= np.max(np.abs(B[:-1, :-1]))
+        # Build B matrix of the normalized errors, the sizes of the errors are only used in b0.
+        # The coefficients are found up to a scale, which is fixed by their sum being one.
+        B = np.zeros((len(self.fock_matrices), len(self.fock_matrices)))
+        for i, error_matrix_i in enumerate(error_matrices / norms[:, None, None]):
+            for j, error_matrix_j in enumerate(error_matrices / norms[:, None, None]):
+                B[i, j] = np.sum(error_matrix_i * error_matrix_j)
+        b0 = np.min(norms) / norms
 
         # Solve B, b0 linear equation, and construct Fprime
-        coefficients = np.linalg.solve(B, b0)
+        coefficients = np.linalg.solve(B, b0) * b0
+        coefficients /= np.sum(coefficients)
         F_extrapolated = np.zeros((self.num_bf, self.num_bf))
-        for c, F in zip(coefficients[:-1], self.fock_matrices):
+        for c, F in zip(coefficients, self.fock_matrices):
             F_extrapolated += c * F
 
         return F_extrapolated
-- 
2.43.0

