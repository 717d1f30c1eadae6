From 7403a13844299706f5ae1327ba0923a035379899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:03 +0000
Subject: [PATCH 01/20] fix: get_commuting_set crashed on degree > 2 and could
 return flipped or overlapping edges

---
 oranssi/circuit_tools.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/oranssi/circuit_tools.py b/oranssi/circuit_tools.py
index ee5dc75..11477db 100644
--- a/oranssi/circuit_tools.py
+++ b/oranssi/circuit_tools.py
@@ -186,6 +186,14 @@ def get_commuting_set(edge_list):
         return edge_list
     else:
         g = nx.from_edgelist(edge_list)
-        applyHeuristic(g, 2, 50, 50)
-        edge_coloring = [e for e in g.edges() if g[e[0]][e[1]]['color'] == 0]
+        # the heuristic needs at least as many colors as the largest degree in the graph
+        applyHeuristic(g, max(degree for _, degree in g.degree()), 50, 50)
+        # the coloring can fail (e.g. odd cycles), so drop edges that still overlap. We go over `edge_list`
+        # since `g.edges()` can flip the order of the qubits in an edge.
+        edge_coloring = []
+        used_nodes = set()
+        for e in edge_list:
+            if g[e[0]][e[1]]['color'] == 0 and used_nodes.isdisjoint(e):
+                edge_coloring.append(e)
+                used_nodes.update(e)
         return edge_coloring
-- 
2.43.0


From 09d977a96b6c04a1ed3472af647ef0cef49b762e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:03 +0000
Subject: [PATCH 02/20] fix: get_lie_algebra_directions failed for layers that
 store their observables as matrices

---
 oranssi/opt_tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index a552551..b6c47c8 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -34,6 +34,7 @@ class LieLayer(object):
         self.nqubits = nqubits
         self.observables = [get_full_operator(obs.matrix, obs.wires, self.nqubits) for obs in
                             observables]
+        self.qml_observables = observables
 
     def __call__(self, circuit_unitary, *args, **kwargs):
         raise NotImplementedError
@@ -96,7 +97,7 @@ class LieLayer(object):
         Returns:
             Dictionary containing the directions and corresponding SU(2^N) directions.
         """
-        return get_all_su_n_directions(circuit_unitary, self.observables, self.device)
+        return get_all_su_n_directions(circuit_unitary, self.qml_observables, self.device)
 
 
 class LocalLieAlgebraLayer(LieLayer):
-- 
2.43.0


From a75bd964537de834b960d3e8acd77c4235ebbed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:56 +0000
Subject: [PATCH 03/20] fix: CustomDirectionLieAlgebraLayer without directions
 used the direction names as operators

---
 oranssi/opt_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index b6c47c8..2e6cc06 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -239,14 +239,14 @@ class CustomDirectionLieAlgebraLayer(LieLayer):
         self.lastate = AlgebraSU4(self.nqubits, add_su2=True)
         self.lastate.get_all_directions_and_qubits()
         self.directions =list(self.lastate.full_paulis.keys())
-        self.paulis = self.lastate.full_paulis
+        self.paulis = list(self.lastate.full_paulis.values())
         if directions is not None:
             assert all(d in self.lastate.directions for d in directions), \
                 f'Supplied Lie algebra directions are invalid, ' \
                 f'expected {self.lastate.directions}, received {directions}'
             new_directions = []
             new_paulis = []
-            for d, pauli in self.paulis.items():
+            for d, pauli in self.lastate.full_paulis.items():
                 print(d)
                 if d[0] in directions:
                     new_directions.append(d)
-- 
2.43.0


From 06913692497880160f49a65309bad9e9cf6fee92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:56 +0000
Subject: [PATCH 04/20] fix: AlgebraSU4.get_random_direction_and_qubits raised,
 so StochasticLieAlgebraLayer could not take a step

---
 oranssi/opt_tools.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index 2e6cc06..29042e8 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -1158,7 +1158,6 @@ class AlgebraSU4():
         Returns:
 
         """
-        raise NotImplementedError
         idx = np.where(self.qubits_left == 0)[0].tolist()
         # allow SU(4) samples
         if not idx:
-- 
2.43.0


From c289f1ced2375a5bf81324d5c29599391548f759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:56 +0000
Subject: [PATCH 05/20] fix: rotosolve angle was only optimal for single qubit
 directions and could increase the cost

---
 oranssi/opt_tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index 29042e8..1dbcea9 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -1289,17 +1289,17 @@ def rotosolve(pauli, observables, obs_qnode, circuit_unitary, nqubits):
             unitary=circuit_unitary,
             observable=o)
     H_p = 0.
-    U_riemann_approx = ssla.expm(-1j * np.pi / 2 * pauli / 2 ** nqubits)
+    U_riemann_approx = ssla.expm(-1j * np.pi / 2 * pauli / 2)
     for o in observables:
         H_p += obs_qnode(
             unitary=U_riemann_approx @ circuit_unitary,
             observable=o)
     H_m = 0.
-    U_riemann_approx = ssla.expm(1j * np.pi / 2 * pauli / 2 ** nqubits)
+    U_riemann_approx = ssla.expm(1j * np.pi / 2 * pauli / 2)
     for o in observables:
         H_m += obs_qnode(
             unitary=U_riemann_approx @ circuit_unitary,
             observable=o)
     eta = -np.pi / 2 - np.arctan2(2 * H_0 - H_p - H_m, H_p - H_m)
-    U_riemann_approx = ssla.expm(-1j * eta * pauli / 2 ** nqubits)
+    U_riemann_approx = ssla.expm(-1j * eta * pauli / 2)
     return U_riemann_approx @ circuit_unitary, eta
-- 
2.43.0


From f111a0bcad2b4fef760a05ae741e95c74280609c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:53 +0000
Subject: [PATCH 06/20] fix: state_to_spherical returned nan when rounding
 pushed the z-component outside [-1, 1]

---
 oranssi/plot_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/plot_utils.py b/oranssi/plot_utils.py
index 0e7c5e6..bf619b0 100644
--- a/oranssi/plot_utils.py
+++ b/oranssi/plot_utils.py
@@ -62,7 +62,7 @@ def state_to_spherical(rho):
     assert np.isclose(np.trace(rho), 1), '`rho` is not trace 1'
     paulis = get_su_2_operators()
     coeffs = [np.trace(rho @ paulis[i]).real for i in range(3)]
-    theta = np.arccos(coeffs[2])
+    theta = np.arccos(np.clip(coeffs[2], -1., 1.))
     phi = np.arctan2(coeffs[1], coeffs[0])
     phi %= (2 * np.pi)
     theta %= (2 * np.pi)
-- 
2.43.0


From acc224476707c61fc771a4c25bce3ae18c6b1c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:53 +0000
Subject: [PATCH 07/20] fix: plot_su16_directions_separate passed an argument
 get_all_su_n_directions does not take

---
 oranssi/plot_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/plot_utils.py b/oranssi/plot_utils.py
index bf619b0..1e0c7d4 100644
--- a/oranssi/plot_utils.py
+++ b/oranssi/plot_utils.py
@@ -96,7 +96,7 @@ def change_label_fontsize(ax: plt.Axes, newsize: int):
 def plot_su16_directions_separate(nqubits:int, unitaries, observables, device):
     omegas = []
     for uni in unitaries:
-        omegas.append(get_all_su_n_directions(uni, observables, nqubits, device))
+        omegas.append(get_all_su_n_directions(uni, observables, device))
 
     fig, axs = plt.subplots(2, 2)
     fig.set_size_inches(16, 16)
-- 
2.43.0


From d888a7abf5786f0dfb3e297c6df230287d641e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:53 +0000
Subject: [PATCH 08/20] fix: products ignored the coefficient of a
 PauliMonomial that came from a commutator or scalar_mul

---
 oranssi/pauli.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/oranssi/pauli.py b/oranssi/pauli.py
index e5d6ac7..6f6cb4c 100644
--- a/oranssi/pauli.py
+++ b/oranssi/pauli.py
@@ -133,16 +133,21 @@ class PauliMonomial(object):
         sites_other_unique = set_other_locations - sites_in_common
         # Take the product of the common paulis and add them
         for i in sites_in_common:
-            new_monomial.append(self[self.locations.index(i)] * other[other.locations.index(i)])
+            p, q = self[self.locations.index(i)], other[other.locations.index(i)]
+            new_monomial.append(Pauli(p.alpha, p.gamma) * Pauli(q.alpha, q.gamma))
         # Create new Pauli objects for the unique locations so we don't get reference issues
         for j in sites_self_unique:
             p = self[self.locations.index(j)]
-            new_monomial.append(Pauli(p.alpha, p.gamma, p.coeff))
+            new_monomial.append(Pauli(p.alpha, p.gamma))
         for k in sites_other_unique:
             p = other[other.locations.index(k)]
-            new_monomial.append(Pauli(p.alpha, p.gamma, p.coeff))
+            new_monomial.append(Pauli(p.alpha, p.gamma))
         # creating a new PauliMonomial will automatically sort based on site
-        return PauliMonomial(new_monomial)
+        product = PauliMonomial(new_monomial)
+        # the coefficients of the monomials can differ from the product of their Pauli coefficients, for example
+        # after taking a commutator
+        product.coeff = complex(product.coeff) * self.coeff * other.coeff
+        return product
 
     def __eq__(self, other):
         # monomials are equal of all paulis are equal. If they are not of equal length they cannot be compared and
-- 
2.43.0


From 798c2ab72f4e2fac21e5e93c99a5ce37885fb503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:53 +0000
Subject: [PATCH 09/20] fix: PauliMonomial.conj left the total coefficient
 unchanged

---
 oranssi/pauli.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oranssi/pauli.py b/oranssi/pauli.py
index 6f6cb4c..23601c9 100644
--- a/oranssi/pauli.py
+++ b/oranssi/pauli.py
@@ -223,6 +223,7 @@ class PauliMonomial(object):
         # conjugate all paulis in the monomial
         for p in self.monomial:
             p.conj()
+        self.coeff = np.conj(self.coeff)
         return self
 
     def commutes_with(self, operator):
-- 
2.43.0


From 476f52d3d96891b1c41b851b7767045dbf540b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:53 +0000
Subject: [PATCH 10/20] fix: PauliMonomial.__lt__ said a real coefficient is
 smaller than a complex one and vice versa

---
 oranssi/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/pauli.py b/oranssi/pauli.py
index 23601c9..b012869 100644
--- a/oranssi/pauli.py
+++ b/oranssi/pauli.py
@@ -181,7 +181,7 @@ class PauliMonomial(object):
             if (~np.isreal(self.coeff) & np.isreal(other.coeff)):
                 return True
             elif (np.isreal(self.coeff) & ~np.isreal(other.coeff)):
-                return True
+                return False
             # if the coefficients are in the same domain, we simply decide by sign.
             else:
                 # can now be either +-a + i0 < +-a' + i0 or 0 + +-ib < 0 + +-ib'
-- 
2.43.0


From 3dc6e9017d7a6e4365da8af817e429dd346703a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:53 +0000
Subject: [PATCH 11/20] fix: PauliSum addition and subtraction changed the
 coefficients of their operands

---
 oranssi/pauli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oranssi/pauli.py b/oranssi/pauli.py
index b012869..cfa6bf6 100644
--- a/oranssi/pauli.py
+++ b/oranssi/pauli.py
@@ -265,7 +265,8 @@ class PauliSum(object):
             'All PauliMonomials must have the same length, found multiple different length: ' \
             f'{[len(ps) for ps in list_of_pauli_monomials]} ' \
             f'where the tuple indicates (location, number of occurences)'
-        self.pauli_sum = list_of_pauli_monomials
+        # copy the monomials, since simplify and scalar_mul change their coefficients
+        self.pauli_sum = [copy.copy(ps) for ps in list_of_pauli_monomials]
         self.simplify()
 
     def __getitem__(self, item):
@@ -309,7 +310,7 @@ class PauliSum(object):
 
     def __sub__(self, other):
         # enable multiplication of monomials
-        other_pauli_sum = copy.copy(other)
+        other_pauli_sum = PauliSum(other.pauli_sum)
         other_pauli_sum.scalar_mul(-1)
         new_pauli_sum = copy.copy(self.pauli_sum) + other_pauli_sum.pauli_sum
         return PauliSum(new_pauli_sum)
-- 
2.43.0


From 42f6e741c3e5e49f78f618b5f571af3ab4013880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:53 +0000
Subject: [PATCH 12/20] fix: parameter_shift_optimizer did not validate
 return_params

---
 oranssi/optimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/optimizers.py b/oranssi/optimizers.py
index f5ab25b..812652c 100644
--- a/oranssi/optimizers.py
+++ b/oranssi/optimizers.py
@@ -49,7 +49,7 @@ def parameter_shift_optimizer(circuit, params: List, observables: List, device:
     assert (isinstance(return_state, bool)), \
         f'`return_state` must be a boolean, received {return_state}'
     return_params = kwargs.get('return_params', False)
-    assert (isinstance(return_state, bool)), \
+    assert (isinstance(return_params, bool)), \
         f'`return_params` must be a boolean, received {return_params}'
     if return_state:
         def circuit_state(params):
-- 
2.43.0


From 9629cbf0816776a41ba99c2eabfc450f364d2837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:53 +0000
Subject: [PATCH 13/20] fix: AdaptVQELayer appended its own parameters to the
 list of the caller

---
 oranssi/opt_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index 1dbcea9..ad8bc7b 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -573,7 +573,7 @@ class AdaptVQELayer(LieLayer):
                             qml.PauliRot(params[j][idx], layer[0], wires=(i, i + 1))
                         qml.PauliRot(params[j][-1], layer[0], wires=(0, self.nqubits - 1))
 
-        params_ext.append([0.1 for _ in range(self.nqubits)])
+        params_ext = [*params_ext, [0.1 for _ in range(self.nqubits)]]
 
         costs, params_ext = ps_optimizer(circuit_vqe, params_ext, self.observables, self.dev,
                                          return_params=True, eta=0.01, tol=1e-5)
-- 
2.43.0


From bf3127322c3b2e75292c08b4d60d8c2c8beda0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:53 +0000
Subject: [PATCH 14/20] fix: unitary_error_check only projected steps that were
 already unitary

---
 oranssi/opt_tools.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index ad8bc7b..bda2098 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -185,7 +185,7 @@ class LocalLieAlgebraLayer(LieLayer):
                         omega = phi.conj().T @ (pauli @ obs - obs @ pauli) @ phi
                         self.op = omega * pauli
                         U_riemann_approx = ssla.expm(- self.eta / 2 ** self.nqubits * self.op)
-                        if (self.unitary_error_check) and (self._is_unitary(U_riemann_approx)):
+                        if (self.unitary_error_check) and (not self._is_unitary(U_riemann_approx)):
                             U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
                         circuit_unitary = U_riemann_approx @ circuit_unitary
                         self.op.fill(0)
@@ -195,7 +195,7 @@ class LocalLieAlgebraLayer(LieLayer):
                     # omegas = np.array(omegas) /( self.eta/ 2 ** self.nqubits +1e-9)
                     self.op = sum(omegas[i] * full_paulis[i] for i in range(len(full_paulis)))
                     U_riemann_approx = ssla.expm(-self.eta / 2 ** self.nqubits * self.op)
-                    if (self.unitary_error_check) and (self._is_unitary(U_riemann_approx)):
+                    if (self.unitary_error_check) and (not self._is_unitary(U_riemann_approx)):
                         U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
                     circuit_unitary = U_riemann_approx @ circuit_unitary
 
@@ -277,7 +277,7 @@ class CustomDirectionLieAlgebraLayer(LieLayer):
                     omega = phi.conj().T @ (pauli @ obs - obs @ pauli) @ phi
                     self.op = omega * pauli
                     U_riemann_approx = ssla.expm(- self.eta / 2 ** self.nqubits * self.op)
-                    if (self.unitary_error_check) and (self._is_unitary(U_riemann_approx)):
+                    if (self.unitary_error_check) and (not self._is_unitary(U_riemann_approx)):
                         U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
                     circuit_unitary = U_riemann_approx @ circuit_unitary
                     self.op.fill(0)
@@ -289,7 +289,7 @@ class CustomDirectionLieAlgebraLayer(LieLayer):
                 self.op = sum(
                     omegas[i] * pauli for i, pauli in enumerate(self.full_paulis.values()))
                 U_riemann_approx = ssla.expm(-self.eta / 2 ** self.nqubits * self.op)
-                if (self.unitary_error_check) and (self._is_unitary(U_riemann_approx)):
+                if (self.unitary_error_check) and (not self._is_unitary(U_riemann_approx)):
                     U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
                 circuit_unitary = U_riemann_approx @ circuit_unitary
 
@@ -359,7 +359,7 @@ class StochasticLieAlgebraLayer(LieLayer):
             pauli = self.lastate.full_paulis[(self.current_direction, *self.current_qubits)]
             omega = phi.conj().T @ (pauli @ obs - obs @ pauli) @ phi
             U_riemann_approx = ssla.expm(- self.eta / 2 ** self.nqubits * omega * pauli)
-            if (self.unitary_error_check) and (self._is_unitary(U_riemann_approx)):
+            if (self.unitary_error_check) and (not self._is_unitary(U_riemann_approx)):
                 U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
             circuit_unitary = U_riemann_approx @ circuit_unitary
 
-- 
2.43.0


From 68a7276d4e758f02ba9d0bd0135a620081833305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:45 +0000
Subject: [PATCH 15/20] fix: ZassenhausLayer raised UnboundLocalError when no
 SU(8) direction has a gradient

---
 oranssi/opt_tools.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index bda2098..4a50cbb 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -814,6 +814,7 @@ class ZassenhausLayer(LieLayer):
             print(self.current_pauli)
             print(omegas_su8)
             print(omegas_su4)
+            B = None
             for k,v in omegas_su8.items():
                 if abs(v)>1e-3:
                     print(k,v)
@@ -829,21 +830,23 @@ class ZassenhausLayer(LieLayer):
             # probs = np.array([omegas_su8[om] for om in omegas_sorted])
             # probs /= np.sum(probs)
             # k_max = omegas_sorted[np.random.choice(list(range(len(omegas_sorted))), p=probs)]
-            omegas_AB = 0
-            # B = omegas_su8_k[k_max]
-            pauli = self.lastates[2].full_paulis[k_max]
-            for oi, obs in enumerate(self.observables_full):
-                omegas_AB += float((phi.conj().T @ (pauli @ obs - obs @ pauli) @ phi).imag[0, 0])
-            omegas_B = -((omegas_AB * 2) / omegas_A)  / omegas_su8_signs[k_max]
-            if np.sign(omegas_B)==np.sign(omegas_su4[omegas_su8_k[k]]):
-                print("SAME SIGN")
-            else:
-                print('DIFFERENT SIGN')
-            U_riemann_approx = ssla.expm(
-                # -1j * self.eta * omegas_su4[B] * self.lastates[1].full_paulis[B])
-                -1j * self.eta * omegas_B / 2**self.nqubits * self.lastates[1].full_paulis[B])
-            circuit_unitary = U_riemann_approx @ circuit_unitary
-            print(omegas_A, omegas_B, omegas_AB)
+            # without a candidate (e.g. at a stationary point) there is no direction to step in
+            if B is not None:
+                omegas_AB = 0
+                # B = omegas_su8_k[k_max]
+                pauli = self.lastates[2].full_paulis[k_max]
+                for oi, obs in enumerate(self.observables_full):
+                    omegas_AB += float((phi.conj().T @ (pauli @ obs - obs @ pauli) @ phi).imag[0, 0])
+                omegas_B = -((omegas_AB * 2) / omegas_A)  / omegas_su8_signs[k_max]
+                if np.sign(omegas_B)==np.sign(omegas_su4[omegas_su8_k[k]]):
+                    print("SAME SIGN")
+                else:
+                    print('DIFFERENT SIGN')
+                U_riemann_approx = ssla.expm(
+                    # -1j * self.eta * omegas_su4[B] * self.lastates[1].full_paulis[B])
+                    -1j * self.eta * omegas_B / 2**self.nqubits * self.lastates[1].full_paulis[B])
+                circuit_unitary = U_riemann_approx @ circuit_unitary
+                print(omegas_A, omegas_B, omegas_AB)
             # omegas_B = 0
             # pauli = self.lastates[1].full_paulis[B]
             # for oi, obs in enumerate(self.observables_full):
@@ -875,7 +878,8 @@ class ZassenhausLayer(LieLayer):
             #     self.observables, self.obs_qnode, circuit_unitary,
             #     len(k_max[0]))
 
-            self.current_pauli = B
+            if B is not None:
+                self.current_pauli = B
             # self.previous_eta = eta
             self.counter += 1
             if self.counter >= self.ratio[1]:
-- 
2.43.0


From 9e3407db0297af23b8b74095c552e56a5cc49297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:45 +0000
Subject: [PATCH 16/20] fix: equal Pauli objects with different coefficients
 had different hashes

---
 oranssi/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/pauli.py b/oranssi/pauli.py
index cfa6bf6..28553cb 100644
--- a/oranssi/pauli.py
+++ b/oranssi/pauli.py
@@ -84,7 +84,7 @@ class Pauli(object):
 
     def __hash__(self):
         # unique hash representation of the object
-        return hash(repr(self))
+        return hash(self.__repr__(coeff=False))
 
     def tex(self):
         # method access to tex
-- 
2.43.0


From 7911ce4b82f9150a0f17d55473a8d8e3956661b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:05 +0000
Subject: [PATCH 17/20] fix: ZassenhausLayer divided by a vanishing SU(4) angle
 and returned a matrix that is not unitary

---
 oranssi/opt_tools.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index 4a50cbb..a5f08f1 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -830,7 +830,10 @@ class ZassenhausLayer(LieLayer):
             # probs = np.array([omegas_su8[om] for om in omegas_sorted])
             # probs /= np.sum(probs)
             # k_max = omegas_sorted[np.random.choice(list(range(len(omegas_sorted))), p=probs)]
-            # without a candidate (e.g. at a stationary point) there is no direction to step in
+            # without a candidate (e.g. at a stationary point) there is no direction to step in, and the stepsize
+            # is undefined if the angle of gate A vanishes
+            if np.isclose(omegas_A, 0.):
+                B = None
             if B is not None:
                 omegas_AB = 0
                 # B = omegas_su8_k[k_max]
-- 
2.43.0


From ab4558a949e4b4d84fa71f2d55bdce8fbdb6540e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:54 +0000
Subject: [PATCH 18/20] fix: get_full_operator accepted negative wires and
 returned a wrong operator

---
 oranssi/circuit_tools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oranssi/circuit_tools.py b/oranssi/circuit_tools.py
index 11477db..4b25b07 100644
--- a/oranssi/circuit_tools.py
+++ b/oranssi/circuit_tools.py
@@ -37,6 +37,7 @@ def get_full_operator(op: np.ndarray, wires: Tuple[int, ...], nqubits: int) -> n
     """
     assert max(
         wires) < nqubits, f'Operator is acting on qubit {max(wires)}, but nqubits is {nqubits}'
+    assert min(wires) >= 0, f'Operator is acting on qubit {min(wires)}, but qubits are numbered from 0'
     opsize = int(np.log2(op.shape[0]))
     assert opsize == len(
         wires), f'Operator is shape {op.shape} acting on {opsize} qubits, but wires = {wires}'
-- 
2.43.0


From 739237cd2a493530e95a680ee4033c5db0d5cc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:08 +0000
Subject: [PATCH 19/20] fix: local and custom direction layers raised when no
 direction acts on the register

---
 oranssi/opt_tools.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index a5f08f1..c148f85 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -193,7 +193,8 @@ class LocalLieAlgebraLayer(LieLayer):
                     for j, pauli in enumerate(full_paulis):
                         omegas.append(phi.conj().T @ (pauli @ obs - obs @ pauli) @ phi)
                     # omegas = np.array(omegas) /( self.eta/ 2 ** self.nqubits +1e-9)
-                    self.op = sum(omegas[i] * full_paulis[i] for i in range(len(full_paulis)))
+                    self.op = sum((omegas[i] * full_paulis[i] for i in range(len(full_paulis))),
+                                  np.zeros_like(self.op))
                     U_riemann_approx = ssla.expm(-self.eta / 2 ** self.nqubits * self.op)
                     if (self.unitary_error_check) and (not self._is_unitary(U_riemann_approx)):
                         U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
@@ -287,7 +288,7 @@ class CustomDirectionLieAlgebraLayer(LieLayer):
                     omegas.append(phi.conj().T @ (pauli @ obs - obs @ pauli) @ phi)
                     print(k, omegas[-1])
                 self.op = sum(
-                    omegas[i] * pauli for i, pauli in enumerate(self.full_paulis.values()))
+                    (omegas[i] * pauli for i, pauli in enumerate(self.full_paulis.values())), np.zeros_like(self.op))
                 U_riemann_approx = ssla.expm(-self.eta / 2 ** self.nqubits * self.op)
                 if (self.unitary_error_check) and (not self._is_unitary(U_riemann_approx)):
                     U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
-- 
2.43.0


From 1bbcd22f8e84fdf8f6d559a940721c080b16c9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:52 +0000
Subject: [PATCH 20/20] fix: alternating layer with one-qubit words skips
 products outside its table

With add_su2=True and add_su4=False a three-qubit step looked up two-qubit
products that are not in the table and raised KeyError.
---
 oranssi/opt_tools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index c148f85..a7a7024 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -795,7 +795,9 @@ class ZassenhausLayer(LieLayer):
                         *[p.alpha for p in p_ab])
                 else:
                     continue
-                if 'I' in AB[0]:
+                # only products that are in the table can be used: commuting words have none, and with one-qubit words
+                # switched on a product can be shorter than three qubits
+                if AB not in self.lastates[2].full_paulis:
                     continue
                 omegas_su8[AB] = 0
                 pauli = self.lastates[2].full_paulis[AB]
-- 
2.43.0

