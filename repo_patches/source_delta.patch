From 5ba4ee298effbbd78a55d4fcd9f3ebf21cea152d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 01/27] fix: give every TensorNetwork its own site tensors

The dictionary of site tensors was a class attribute, so all networks in a
process (copies made with copy()/to(), a second Ipeps) shared and overwrote
the same tensors.
---
 acetn/ipeps/tensor_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/ipeps/tensor_network.py b/acetn/ipeps/tensor_network.py
index 26d2c45..d2e7891 100644
--- a/acetn/ipeps/tensor_network.py
+++ b/acetn/ipeps/tensor_network.py
@@ -9,7 +9,6 @@ class TensorNetwork:
     This class handles the construction, initialization, and manipulation of a tensor network.
     It supports operations such as saving, loading, and setting up tensor networks, as well as managing the tensors.
     """
-    _tensor_network = {}
     def __init__(self, tensor_network, config, dtype, device):
         """
         Initializes the TensorNetwork object.
@@ -20,6 +19,7 @@ class TensorNetwork:
             dtype (torch.dtype): The data type for the tensors (e.g., torch.float32).
             device (torch.device): The device on which the tensors will be allocated (e.g., 'cpu' or 'cuda').
         """
+        self._tensor_network = {}
         self.tn_config = config
         self.nx = config.nx
         self.ny = config.ny
-- 
2.43.0


From ee59a5b3d9653416f2ec6fc76dcaf1502b59036c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 02/27] fix: do not modify the network when saving it

save() reloaded the file it had just written, which replaced the tensors and
marked the site states as initialized, so a later evolve() skipped the
initial state of the model.
---
 acetn/ipeps/tensor_network.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/acetn/ipeps/tensor_network.py b/acetn/ipeps/tensor_network.py
index d2e7891..dda958c 100644
--- a/acetn/ipeps/tensor_network.py
+++ b/acetn/ipeps/tensor_network.py
@@ -106,7 +106,6 @@ class TensorNetwork:
             "tensors": tn_cpu._tensor_network,
         }
         torch.save(state_dict, filename)
-        self.load(filename)
 
     def load(self, filename):
         """
-- 
2.43.0


From 82c4b6534568f5bb7926d38fc5981b45150833a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 03/27] fix: keep the supplied network as initial state of an
 Ipeps

Ipeps(config, ipeps=network) copied the tensors but left the site states
marked as uninitialized, so evolve() replaced them by a product state.
---
 acetn/ipeps/ipeps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/ipeps/ipeps.py b/acetn/ipeps/ipeps.py
index 467f571..d0de9b5 100644
--- a/acetn/ipeps/ipeps.py
+++ b/acetn/ipeps/ipeps.py
@@ -38,7 +38,7 @@ class Ipeps(TensorNetwork):
         self.setup_distributed()
         log_initial_message(self.device, config)
         super().__init__(ipeps, self.config.TN, self.dtype, self.device)
-        self.site_states_initialized = False
+        self.site_states_initialized = ipeps is not None
 
     def __del__(self):
         """
-- 
2.43.0


From 72c8ce1f4f1670368da7463eccde5f4621c140c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 04/27] fix: give every Gate its own gate tensors

The dictionary of gates was a class attribute, so a second Gate replaced the
gates of the first and stale entries of other models stayed visible.
---
 acetn/evolution/gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/evolution/gate.py b/acetn/evolution/gate.py
index 99bae1f..7e0cc46 100644
--- a/acetn/evolution/gate.py
+++ b/acetn/evolution/gate.py
@@ -6,7 +6,6 @@ class Gate:
     A class representing quantum gates for one-site and two-site Hamiltonians, 
     used in time evolution algorithms.
     """
-    _gate = {}
     def __init__(self, model, dtau, bond_list=None, site_list=None):
         """
         Initializes the Gate object, creating gates for the given model.
@@ -22,6 +21,7 @@ class Gate:
         site_list : list, optional
             A list of sites for which one-site gates will be created (default is None).
         """
+        self._gate = {}
         self.dtype = model.dtype
         self.device = model.device
         self.wrap_one_site = True
-- 
2.43.0


From 4b43ad3c36af3a97a1870b7a671ef022cf810b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 05/27] fix: do not modify the model's two-site Hamiltonian
 when building gates

The one-site terms were added in place, so a model returning a stored
operator accumulated them on every bond and in every measurement.
---
 acetn/evolution/gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/evolution/gate.py b/acetn/evolution/gate.py
index 7e0cc46..918019e 100644
--- a/acetn/evolution/gate.py
+++ b/acetn/evolution/gate.py
@@ -103,7 +103,7 @@ class Gate:
                 if site_ham_1 is not None and site_ham_2 is not None:
                     site_ham_1 = torch.kron(site_ham_1.mat, id_mat)
                     site_ham_2 = torch.kron(id_mat, site_ham_2.mat)
-                    bond_ham += 0.25*(site_ham_1 + site_ham_2)
+                    bond_ham = bond_ham + 0.25*(site_ham_1 + site_ham_2)
             self[bond] = self.calculate_gate(bond_ham, dtau).reshape(pD,pD,pD,pD)
 
     def calculate_gate(self, ham, dtau):
-- 
2.43.0


From 2d10b05d17ac0c1e7ea3a2e88205a089b6e9afd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 06/27] fix: apply one-site Hamiltonians that are defined on a
 subset of the sites

The one-site term of a bond was dropped when the other site of the bond had
no one-site Hamiltonian, so it was missing from the evolution.
---
 acetn/evolution/gate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/acetn/evolution/gate.py b/acetn/evolution/gate.py
index 918019e..ce2cf1d 100644
--- a/acetn/evolution/gate.py
+++ b/acetn/evolution/gate.py
@@ -100,10 +100,10 @@ class Gate:
                 id_mat = torch.eye(pD, dtype=self.dtype, device=self.device)
                 site_ham_1 = model.one_site_hamiltonian(bond.s1)
                 site_ham_2 = model.one_site_hamiltonian(bond.s2)
-                if site_ham_1 is not None and site_ham_2 is not None:
-                    site_ham_1 = torch.kron(site_ham_1.mat, id_mat)
-                    site_ham_2 = torch.kron(id_mat, site_ham_2.mat)
-                    bond_ham = bond_ham + 0.25*(site_ham_1 + site_ham_2)
+                if site_ham_1 is not None:
+                    bond_ham = bond_ham + 0.25*torch.kron(site_ham_1.mat, id_mat)
+                if site_ham_2 is not None:
+                    bond_ham = bond_ham + 0.25*torch.kron(id_mat, site_ham_2.mat)
             self[bond] = self.calculate_gate(bond_ham, dtau).reshape(pD,pD,pD,pD)
 
     def calculate_gate(self, ham, dtau):
-- 
2.43.0


From 4b059334c72fe49cc180023b2d8d938bdd0e3540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 07/27] fix: transpose without conjugation in the full-system
 rsvd projector

The projector is (Q2 Q1)^T conj(U); taking the adjoint instead gave wrong
projectors, and wrong energies, for complex tensors.
---
 acetn/renormalization/projectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/renormalization/projectors.py b/acetn/renormalization/projectors.py
index 71c45e1..28bd3c2 100644
--- a/acetn/renormalization/projectors.py
+++ b/acetn/renormalization/projectors.py
@@ -207,7 +207,7 @@ class ProjectorCalculator:
         V = V[:, :cD_new] * (1. / sqrt(s[:cD_new]))
 
         # proj1 = R1.T @ conj(U) = (Q2 @ Q1).T @ conj(U) = Q1.T @ (Q2.T @ conj(U))
-        proj1 = Q1.mH @ (Q2.mH @ conj(U))
+        proj1 = Q1.mT @ (Q2.mT @ conj(U))
         proj1 = proj1.view(*q1D[3:], cD_new)
 
         # proj2 = R2 @ V = (Q4 @ Q3) @ V = Q4 @ (Q3 @ V)
-- 
2.43.0


From 130df0d79bd0e7cfa5a07b654abbe9a5b1e403b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 08/27] fix: initialize the ALS solver from the truncated SVD
 for complex tensors

The initial guess contracted U S with conj(Vh), which is not the truncated
SVD of the gate-tensor product when it is complex.
---
 acetn/evolution/als_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/evolution/als_solver.py b/acetn/evolution/als_solver.py
index ec1a6b5..200b1ab 100644
--- a/acetn/evolution/als_solver.py
+++ b/acetn/evolution/als_solver.py
@@ -137,7 +137,7 @@ class ALSSolver:
         nD,bD,pD = ar_shape
         a12g_tmp = einsum("yxpq->ypxq", a12g).reshape(nD*pD, nD*pD)
         U,S,Vh = svd(a12g_tmp)
-        V = Vh.mH
+        V = Vh.mT
         S = torch.sqrt(S[:bD]/S[0])
         U = U[:,:bD].reshape(nD,pD,bD)
         V = V[:,:bD].reshape(nD,pD,bD)
-- 
2.43.0


From d07a78390ffa1ffd645e80a7ca22d866589ecbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 09/27] fix: honour the documented default J=1.0 of the
 Heisenberg model

Leaving out J, or the params table, raised a TypeError/AttributeError, also
in set_model_params() when no parameters had been given.
---
 acetn/ipeps/ipeps_config.py      | 2 +-
 acetn/model/models/heisenberg.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/acetn/ipeps/ipeps_config.py b/acetn/ipeps/ipeps_config.py
index a456fb7..d99c268 100644
--- a/acetn/ipeps/ipeps_config.py
+++ b/acetn/ipeps/ipeps_config.py
@@ -42,7 +42,7 @@ class ModelConfig:
     device: torch.device
     dim: int
     name: str = None
-    params: Dict[str, int] = None
+    params: Dict[str, int] = field(default_factory=dict)
 
 @dataclass
 class IpepsConfig:
diff --git a/acetn/model/models/heisenberg.py b/acetn/model/models/heisenberg.py
index 518dbe9..326ba56 100644
--- a/acetn/model/models/heisenberg.py
+++ b/acetn/model/models/heisenberg.py
@@ -21,6 +21,6 @@ class HeisenbergModel(Model):
 
     def two_site_hamiltonian(self, bond):
         r"""$H_{ij} = \vec{S}_i\cdot\vec{S}_j$"""
-        J = self.params.get('J')
+        J = self.params.get('J', 1.0)
         X,Y,Z,I = pauli_matrices(self.dtype, self.device)
         return 0.25*J*(X*X + Y*Y + Z*Z)
-- 
2.43.0


From 96f52a52151de5dd7c934a516c88822febb3277e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 10/27] fix: build gates from Hamiltonians given as plain
 tensors

Model.one_site_hamiltonian and two_site_hamiltonian are documented to return
a torch.Tensor, and measure() accepts one, but building the gates required an
object with a mat attribute.
---
 acetn/evolution/gate.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/acetn/evolution/gate.py b/acetn/evolution/gate.py
index ce2cf1d..9adb5f9 100644
--- a/acetn/evolution/gate.py
+++ b/acetn/evolution/gate.py
@@ -1,6 +1,13 @@
 import torch
 
 
+def operator_matrix(operator):
+    """
+    Returns the matrix of an operator given as a tensor or as an object with a ``mat`` tensor.
+    """
+    return operator.mat if hasattr(operator, 'mat') else operator
+
+
 class Gate:
     """
     A class representing quantum gates for one-site and two-site Hamiltonians, 
@@ -77,7 +84,7 @@ class Gate:
             site_ham = model.one_site_hamiltonian(site)
             if site_ham is not None:
                 scale = 1. if self.wrap_one_site else 0.25
-                self[site] = self.calculate_gate(site_ham.mat, scale*dtau)
+                self[site] = self.calculate_gate(operator_matrix(site_ham), scale*dtau)
 
     def build_two_site_gates(self, model, dtau, bond_list):
         """
@@ -95,15 +102,15 @@ class Gate:
         """
         for bond in bond_list:
             pD = model.dim
-            bond_ham = model.two_site_hamiltonian(bond).mat
+            bond_ham = operator_matrix(model.two_site_hamiltonian(bond)).reshape(pD**2, pD**2)
             if self.wrap_one_site:
                 id_mat = torch.eye(pD, dtype=self.dtype, device=self.device)
                 site_ham_1 = model.one_site_hamiltonian(bond.s1)
                 site_ham_2 = model.one_site_hamiltonian(bond.s2)
                 if site_ham_1 is not None:
-                    bond_ham = bond_ham + 0.25*torch.kron(site_ham_1.mat, id_mat)
+                    bond_ham = bond_ham + 0.25*torch.kron(operator_matrix(site_ham_1), id_mat)
                 if site_ham_2 is not None:
-                    bond_ham = bond_ham + 0.25*torch.kron(id_mat, site_ham_2.mat)
+                    bond_ham = bond_ham + 0.25*torch.kron(id_mat, operator_matrix(site_ham_2))
             self[bond] = self.calculate_gate(bond_ham, dtau).reshape(pD,pD,pD,pD)
 
     def calculate_gate(self, ham, dtau):
-- 
2.43.0


From 9edfe1ab5feaa3bfea9e02e1b9db588cf2b6b31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 11/27] fix: keep the Pauli string parity of sums and
 differences

The number of Y factors in the key decides the sign of real-valued products.
Concatenating the keys of the operands of a sum made (Y + Y)*Y and
(Y*I + I*Y)*Y come out with the wrong sign.  Operands which are not Pauli
matrices are rejected with a TypeError instead of returning None.
---
 acetn/model/pauli_matrix.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/acetn/model/pauli_matrix.py b/acetn/model/pauli_matrix.py
index 5083e01..c3d9259 100644
--- a/acetn/model/pauli_matrix.py
+++ b/acetn/model/pauli_matrix.py
@@ -116,7 +116,8 @@ class PauliMatrix:
             PauliMatrix: A new `PauliMatrix` object containing the result of the addition.
         """
         if isinstance(other, (PauliMatrix)):
-            return PauliMatrix(self.key + other.key, self.dtype, self.device, mat=(self.mat + other.mat))
+            return PauliMatrix(self.key, self.dtype, self.device, mat=(self.mat + other.mat))
+        return NotImplemented
 
     def __sub__(self, other):
         """
@@ -131,7 +132,8 @@ class PauliMatrix:
             PauliMatrix: A new `PauliMatrix` object containing the result of the subtraction.
         """
         if isinstance(other, (PauliMatrix)):
-            return PauliMatrix(self.key + other.key, self.dtype, self.device, mat=(self.mat - other.mat))
+            return PauliMatrix(self.key, self.dtype, self.device, mat=(self.mat - other.mat))
+        return NotImplemented
 
     def __neg__(self):
         """
-- 
2.43.0


From 199cc6e003f16dedb7ebb56541a130ac952b923b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 12/27] fix: include the sign of real-valued Y products in
 in-place multiplication

Y *= Y gave the negative of Y*Y for real data types.
---
 acetn/model/pauli_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/model/pauli_matrix.py b/acetn/model/pauli_matrix.py
index c3d9259..ba86f24 100644
--- a/acetn/model/pauli_matrix.py
+++ b/acetn/model/pauli_matrix.py
@@ -85,7 +85,7 @@ class PauliMatrix:
             PauliMatrix or torch.Tensor: A new `PauliMatrix` object (in the case of scalar) or a tensor (in the case of matrix Kronecker product).
         """
         if isinstance(other, (PauliMatrix)):
-            return torch.kron(self.mat, other.mat)
+            return (self*other).mat
         else:
             return PauliMatrix(self.key, self.dtype, self.device, mat=other*self.mat)
 
-- 
2.43.0


From b377dfd0badd555688b430ec2ceddd81e49f4d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 13/27] fix: do not share dims and model params between
 networks

set_chi() and set_model_params() modified the dictionaries of the user's
config, and so also every other Ipeps created from it.
---
 acetn/ipeps/ipeps.py        | 2 +-
 acetn/ipeps/ipeps_config.py | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/acetn/ipeps/ipeps.py b/acetn/ipeps/ipeps.py
index d0de9b5..3e618b6 100644
--- a/acetn/ipeps/ipeps.py
+++ b/acetn/ipeps/ipeps.py
@@ -77,7 +77,7 @@ class Ipeps(TensorNetwork):
         name = "custom" if name is None else name.lower()
         model_factory.register(name, model_cls)
         self.config.model.name = name
-        self.config.model.params = params
+        self.config.model.params = dict(params or {})
 
     def set_model_params(self, **kwargs):
         """
diff --git a/acetn/ipeps/ipeps_config.py b/acetn/ipeps/ipeps_config.py
index d99c268..59d746d 100644
--- a/acetn/ipeps/ipeps_config.py
+++ b/acetn/ipeps/ipeps_config.py
@@ -13,6 +13,9 @@ class TNConfig:
     dims: Dict[str, int] = field(
         default_factory=lambda: {'phys': 2, 'bond': 2, 'chi': 20})
 
+    def __post_init__(self):
+        self.dims = dict(self.dims)
+
 @dataclass
 class CTMRGConfig:
     steps: int = 40
@@ -44,6 +47,9 @@ class ModelConfig:
     name: str = None
     params: Dict[str, int] = field(default_factory=dict)
 
+    def __post_init__(self):
+        self.params = dict(self.params or {})
+
 @dataclass
 class IpepsConfig:
     """Configuration class for iPEPS setup."""
-- 
2.43.0


From f1fb1d827fbc76c928422c0f5ed158ba56498ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 14/27] fix: copy the dims in TensorNetwork.copy() and to()

set_chi() on a network changed the boundary dimension recorded in its deep
copies.
---
 acetn/ipeps/tensor_network.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/acetn/ipeps/tensor_network.py b/acetn/ipeps/tensor_network.py
index dda958c..944dae1 100644
--- a/acetn/ipeps/tensor_network.py
+++ b/acetn/ipeps/tensor_network.py
@@ -1,3 +1,4 @@
+import copy
 import torch
 from .site_tensor import SiteTensor
 from .bond import Bond
@@ -74,7 +75,7 @@ class TensorNetwork:
         Returns:
             TensorNetwork: A new `TensorNetwork` with identical contents and metadata.
         """
-        return TensorNetwork(tensor_network=self, config=self.tn_config, dtype=self.dtype, device=self.device)
+        return TensorNetwork(tensor_network=self, config=copy.deepcopy(self.tn_config), dtype=self.dtype, device=self.device)
 
     def to(self, dtype=None, device=None):
         """
@@ -89,7 +90,7 @@ class TensorNetwork:
         """
         device = device or self.device
         dtype = dtype or self.dtype
-        return TensorNetwork(tensor_network=self, config=self.tn_config, dtype=dtype, device=device)
+        return TensorNetwork(tensor_network=self, config=copy.deepcopy(self.tn_config), dtype=dtype, device=device)
 
     def save(self, filename='ipeps.pt'):
         """
-- 
2.43.0


From 89a4829df737555626f49178c193adadae4d4a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 15/27] fix: keep the model class set on each Ipeps

set_model() without a name registered every class as "custom" in the global
factory, so a second network replaced the model of the first.
---
 acetn/ipeps/ipeps.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/acetn/ipeps/ipeps.py b/acetn/ipeps/ipeps.py
index 3e618b6..2c9af63 100644
--- a/acetn/ipeps/ipeps.py
+++ b/acetn/ipeps/ipeps.py
@@ -39,6 +39,7 @@ class Ipeps(TensorNetwork):
         log_initial_message(self.device, config)
         super().__init__(ipeps, self.config.TN, self.dtype, self.device)
         self.site_states_initialized = ipeps is not None
+        self.model_cls = None
 
     def __del__(self):
         """
@@ -77,8 +78,20 @@ class Ipeps(TensorNetwork):
         name = "custom" if name is None else name.lower()
         model_factory.register(name, model_cls)
         self.config.model.name = name
+        self.model_cls = model_cls
         self.config.model.params = dict(params or {})
 
+    def create_model(self):
+        """
+        Create the model set for this network.
+
+        Returns:
+            Model: Instance of the class given to `set_model`, otherwise of the model named in the config.
+        """
+        if self.model_cls is not None:
+            return self.model_cls(self.config.model)
+        return model_factory.create(self.config.model)
+
     def set_model_params(self, **kwargs):
         """
         Update model parameters.
@@ -106,7 +119,7 @@ class Ipeps(TensorNetwork):
             steps (int): Number of evolution steps.
             model (optional): Custom model instance to use.
         """
-        model = model_factory.create(self.config.model) if model is None else model
+        model = self.create_model() if model is None else model
         if not self.site_states_initialized:
             self.initialize_site_tensors(model.initial_site_state)
         log_evolve_start_message(dtau, self.dims, model)
@@ -124,5 +137,5 @@ class Ipeps(TensorNetwork):
         Returns:
             dict: Measurement results.
         """
-        model = model_factory.create(self.config.model) if model is None else model
+        model = self.create_model() if model is None else model
         return measure(self, model)
-- 
2.43.0


From 7e7ff60803ee7fd6598c2dc59e2961c7fb681404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 16/27] fix: make the positive approximation terminate in
 single precision

When the lowest eigenvalue is negative by less than the rounding error of the
norm tensor the shift did not change it, and the loop never ended.
---
 acetn/evolution/full_update.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acetn/evolution/full_update.py b/acetn/evolution/full_update.py
index 8b95149..6b104ae 100644
--- a/acetn/evolution/full_update.py
+++ b/acetn/evolution/full_update.py
@@ -286,7 +286,9 @@ def positive_approx(n12, cutoff=1e-12):
         nw = torch.flip(nw, dims=[-1])
         nz = torch.flip(nz, dims=[-1])
     while nw[0] < cutoff:
-        N += 2*max(cutoff, abs(nw[0]))*torch.eye(nD**2, dtype=N.dtype, device=N.device)
+        # a shift below the rounding error of N would never terminate
+        shift = 2*max(cutoff, abs(nw[0]), torch.finfo(nw.dtype).eps*abs(nw[-1]))
+        N += shift*torch.eye(nD**2, dtype=N.dtype, device=N.device)
         try:
             nw,nz = eigh(N)
         except torch._C._LinAlgError:
-- 
2.43.0


From 971b13a1e78b15c9f8bb40b8b45615a072699e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 17/27] fix: simple update with complex tensors

clamp is not defined for complex tensors, and the bond weights are real.
---
 acetn/evolution/lambda_tensors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/evolution/lambda_tensors.py b/acetn/evolution/lambda_tensors.py
index fb9e9fd..a91aeb6 100644
--- a/acetn/evolution/lambda_tensors.py
+++ b/acetn/evolution/lambda_tensors.py
@@ -42,7 +42,7 @@ class LambdaTensors:
     def strip(self, a, site, exclude_dir):
         """Divide out lambda from all legs of a site tensor except ``exclude_dir``."""
         weights = [
-            1.0 / self.get(site, d).clamp(min=self.CUTOFF) if d != exclude_dir
+            1.0 / self.get(site, d).real.clamp(min=self.CUTOFF) if d != exclude_dir
             else torch.ones_like(self.get(site, d))
             for d in range(4)
         ]
-- 
2.43.0


From 6a6899f3495278dff136155d943bd7467b26452e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:43 +0000
Subject: [PATCH 18/27] fix: apply and measure operators, not their transposes

Gates were contracted through their row index and expectation values took the
transposed operator, so complex operators acted as their complex conjugates:
a site prepared in the +1 eigenstate of Y measured Y = -1.
---
 acetn/evolution/full_update.py   | 2 +-
 acetn/evolution/simple_update.py | 6 +++---
 acetn/evolution/tensor_update.py | 4 ++--
 acetn/measurement/measure.py     | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/acetn/evolution/full_update.py b/acetn/evolution/full_update.py
index 6b104ae..ea61c6f 100644
--- a/acetn/evolution/full_update.py
+++ b/acetn/evolution/full_update.py
@@ -87,7 +87,7 @@ class FullUpdater(TensorUpdater):
             The updated reduced tensors for the first and second sites.
         """
         a12g = einsum("yup,xuq->yxpq", a1r, a2r)
-        a12g = einsum("yxpq,pqrs->yxrs", a12g, gate)
+        a12g = einsum("yxpq,rspq->yxrs", a12g, gate)
 
         n12, a12g = self.precondition_norm_tensor(n12, a12g)
         a1r,a2r = ALSSolver(n12, a12g, a1r.shape, self.config).solve()
diff --git a/acetn/evolution/simple_update.py b/acetn/evolution/simple_update.py
index 068beb0..58e37ed 100644
--- a/acetn/evolution/simple_update.py
+++ b/acetn/evolution/simple_update.py
@@ -45,7 +45,7 @@ class SimpleUpdater(TensorUpdater):
 
         nD, bD, pD = a1r.shape
         a12 = einsum("yup,xuq->ypxq", a1r, a2r)
-        a12g = einsum("ypxq,pqrs->yrxs", a12, self.gate[bond])
+        a12g = einsum("ypxq,rspq->yrxs", a12, self.gate[bond])
 
         # SVD, truncate, and compute new bond lambda tensor
         U, S, Vh = svd(a12g.reshape(nD * pD, nD * pD))
@@ -65,8 +65,8 @@ class SimpleUpdater(TensorUpdater):
         a2 = self.lambda_tensors.strip(a2, bond.s2, exclude_dir=(bond.k + 2) % 4)
 
         if not self.gate.wrap_one_site:
-            a1 = einsum("pq,lurdp->lurdq", self.gate[bond.s1], a1)
-            a2 = einsum("pq,lurdp->lurdq", self.gate[bond.s2], a2)
+            a1 = einsum("qp,lurdp->lurdq", self.gate[bond.s1], a1)
+            a2 = einsum("qp,lurdp->lurdq", self.gate[bond.s2], a2)
 
         self.lambda_tensors[bond] = lambda_tensor
         self.ipeps[bond.s1]['A'] = a1
diff --git a/acetn/evolution/tensor_update.py b/acetn/evolution/tensor_update.py
index 910ff8f..c76a182 100644
--- a/acetn/evolution/tensor_update.py
+++ b/acetn/evolution/tensor_update.py
@@ -33,8 +33,8 @@ class TensorUpdater(ABC):
         a1,a2 = self.tensor_update(a1, a2, bond)
         a1,a2 = self.permute_bond_tensors(a1, a2, 4-k)
         if not self.gate.wrap_one_site:
-            a1 = einsum("pq,lurdp->lurdq", self.gate[bond.s1], a1)
-            a2 = einsum("pq,lurdp->lurdq", self.gate[bond.s2], a2)
+            a1 = einsum("qp,lurdp->lurdq", self.gate[bond.s1], a1)
+            a2 = einsum("qp,lurdp->lurdq", self.gate[bond.s2], a2)
         return a1,a2
 
     def permute_bond_tensors(self, a1, a2, k):
diff --git a/acetn/measurement/measure.py b/acetn/measurement/measure.py
index c2753e9..dc6e0f4 100644
--- a/acetn/measurement/measure.py
+++ b/acetn/measurement/measure.py
@@ -181,7 +181,7 @@ def measure_one_site(rdm, operator):
     Returns:
         float: The expectation value of the operator.
     """
-    return einsum("Pp,pP->", rdm, operator).real
+    return einsum("Pp,Pp->", rdm, operator).real
 
 
 def measure_two_site(rdm, operator):
@@ -195,4 +195,4 @@ def measure_two_site(rdm, operator):
     Returns:
         float: The expectation value of the operator.
     """
-    return einsum("PQpq,pqPQ->", rdm, operator).real
+    return einsum("PQpq,PQpq->", rdm, operator).real
-- 
2.43.0


From 2994edbf0c42763499bfef5c557e6f6c83d9f1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:43 +0000
Subject: [PATCH 19/27] fix: compute the projectors of every row and column in
 distributed moves

Each pass covers ws//2 rows or columns, but the index advanced by one per
pass, so rows were missing (four ranks, four rows) or a rank had no projector
to contribute (more ranks than rows).
---
 acetn/renormalization/directional_mover.py | 54 +++++++++++-----------
 1 file changed, 26 insertions(+), 28 deletions(-)

diff --git a/acetn/renormalization/directional_mover.py b/acetn/renormalization/directional_mover.py
index 807bfab..04071aa 100644
--- a/acetn/renormalization/directional_mover.py
+++ b/acetn/renormalization/directional_mover.py
@@ -190,26 +190,25 @@ class DirectionalMover:
             x2 (int): The x-coordinate index of the right boundary.
         """
         rank, ws = ipeps.rank, ipeps.world_size
+        half = ws//2
         proj1l, proj2l = {}, {}
         proj1r, proj2r = {}, {}
-        for y_shift in range(0, 2*ipeps.ny, ws):
-            if rank < ws//2:
-                yi = rank + y_shift//ws
-                if yi < ipeps.ny:
-                    proj1_i, proj2_i = self.calculate_left_projectors(ipeps, x1, yi)
-            elif rank >= ws//2:
-                yi = rank - ws//2 + y_shift//ws
-                if yi < ipeps.ny:
-                    proj1_i, proj2_i = self.calculate_right_projectors(ipeps, x2, yi)
+        for y_shift in range(0, ipeps.ny, half):
+            # each half of the ranks covers the indices y_shift,...,y_shift+half-1 of one boundary
+            yi = (y_shift + rank % half) % ipeps.ny
+            if rank < half:
+                proj1_i, proj2_i = self.calculate_left_projectors(ipeps, x1, yi)
+            else:
+                proj1_i, proj2_i = self.calculate_right_projectors(ipeps, x2, yi)
 
             proj1_all = all_gather_tensor(proj1_i, rank, ws)
             proj2_all = all_gather_tensor(proj2_i, rank, ws)
 
-            for yi in range(ws//2):
-                proj1l[yi + y_shift//ws] = proj1_all[yi].to(rank)
-                proj2l[yi + y_shift//ws] = proj2_all[yi].to(rank)
-                proj1r[yi + y_shift//ws] = proj1_all[yi + ws//2].to(rank)
-                proj2r[yi + y_shift//ws] = proj2_all[yi + ws//2].to(rank)
+            for i in range(min(half, ipeps.ny - y_shift)):
+                proj1l[y_shift + i] = proj1_all[i]
+                proj2l[y_shift + i] = proj2_all[i]
+                proj1r[y_shift + i] = proj1_all[half + i]
+                proj2r[y_shift + i] = proj2_all[half + i]
 
         for yi in range(ipeps.ny):
             xj = (x1+1) % ipeps.nx
@@ -235,26 +234,25 @@ class DirectionalMover:
             y2 (int): The y-coordinate index of the down boundary.
         """
         rank, ws = ipeps.rank, ipeps.world_size
+        half = ws//2
         proj1u, proj2u = {}, {}
         proj1d, proj2d = {}, {}
-        for x_shift in range(0, 2*ipeps.nx, ws):
-            if rank < ws//2:
-                xi = rank + x_shift//ws
-                if xi < ipeps.nx:
-                    proj1_i, proj2_i = self.calculate_up_projectors(ipeps, xi, y1)
-            elif rank >= ws//2:
-                xi = rank - ws//2 + x_shift//ws
-                if xi < ipeps.nx:
-                    proj1_i, proj2_i = self.calculate_down_projectors(ipeps, xi, y2)
+        for x_shift in range(0, ipeps.nx, half):
+            # each half of the ranks covers the indices x_shift,...,x_shift+half-1 of one boundary
+            xi = (x_shift + rank % half) % ipeps.nx
+            if rank < half:
+                proj1_i, proj2_i = self.calculate_up_projectors(ipeps, xi, y1)
+            else:
+                proj1_i, proj2_i = self.calculate_down_projectors(ipeps, xi, y2)
 
             proj1_all = all_gather_tensor(proj1_i, rank, ws)
             proj2_all = all_gather_tensor(proj2_i, rank, ws)
 
-            for xi in range(ws//2):
-                proj1u[xi + x_shift//ws] = proj1_all[xi].to(rank)
-                proj2u[xi + x_shift//ws] = proj2_all[xi].to(rank)
-                proj1d[xi + x_shift//ws] = proj1_all[xi + ws//2].to(rank)
-                proj2d[xi + x_shift//ws] = proj2_all[xi + ws//2].to(rank)
+            for i in range(min(half, ipeps.nx - x_shift)):
+                proj1u[x_shift + i] = proj1_all[i]
+                proj2u[x_shift + i] = proj2_all[i]
+                proj1d[x_shift + i] = proj1_all[half + i]
+                proj2d[x_shift + i] = proj2_all[half + i]
 
         for xi in range(ipeps.nx):
             xj = (xi+1) % ipeps.nx
-- 
2.43.0


From 66bd87144b1395bb55b57d2efaac94dba42b4b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:43 +0000
Subject: [PATCH 20/27] fix: gather projectors of different shapes, and on the
 cpu

The gathered shapes were moved to a cuda device with the index of the rank,
which fails for distributed runs on the cpu, and gloo does not gather tensors
whose shapes differ.
---
 acetn/utils/distributed.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/acetn/utils/distributed.py b/acetn/utils/distributed.py
index b099853..0fad466 100644
--- a/acetn/utils/distributed.py
+++ b/acetn/utils/distributed.py
@@ -101,8 +101,11 @@ def all_gather_tensor(tensor, rank, ws):
     # gather tensors
     tensor_all = []
     for i in range(ws):
-        tensor_buf_shape = list(tensor_all_shapes[i].to(rank))
-        tensor_buf = torch.empty(tensor_buf_shape, dtype=tensor.dtype, device=tensor.device)
+        if i == rank:
+            tensor_buf = tensor.contiguous()
+        else:
+            tensor_buf = torch.empty(tensor_all_shapes[i].tolist(), dtype=tensor.dtype, device=tensor.device)
+        # tensors of different ranks can differ in shape, which all_gather does not support on all backends
+        dist.broadcast(tensor_buf, src=i)
         tensor_all.append(tensor_buf)
-    dist.all_gather(tensor_all, tensor)
     return tensor_all
\ No newline at end of file
-- 
2.43.0


From e74ff053b930438a3814ebc50578ed68eacd1ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:09 +0000
Subject: [PATCH 21/27] fix: keep the randomized SVDs finite for rank-deficient
 complex matrices

---
 acetn/linalg/fused_3matmul_svd_lowrank.py |  7 ++++---
 acetn/linalg/fused_matmul_svd_lowrank.py  |  5 +++--
 acetn/linalg/orthonormalize.py            | 23 +++++++++++++++++++++++
 acetn/linalg/svd_lowrank.py               |  5 +++--
 4 files changed, 33 insertions(+), 7 deletions(-)
 create mode 100644 acetn/linalg/orthonormalize.py

diff --git a/acetn/linalg/fused_3matmul_svd_lowrank.py b/acetn/linalg/fused_3matmul_svd_lowrank.py
index 2c9b487..ea60274 100644
--- a/acetn/linalg/fused_3matmul_svd_lowrank.py
+++ b/acetn/linalg/fused_3matmul_svd_lowrank.py
@@ -1,4 +1,5 @@
 import torch
+from .orthonormalize import orthonormalize
 
 
 def fused_3matmul_svd_lowrank(A, B, C, D, q=6, niter=2):
@@ -37,14 +38,14 @@ def fused_3matmul_svd_lowrank(A, B, C, D, q=6, niter=2):
     Y = A @ (B @ (C @ (D @ Omega)))
 
     for _ in range(niter):
-        Y, _ = torch.linalg.qr(Y)
+        Y = orthonormalize(Y)
         # (A @ B @ C @ D)^H @ Y = D^H @ (C^H @ (B^H @ (A^H @ Y)))
         Y = D.mH @ (C.mH @ (B.mH @ (A.mH @ Y)))
-        Y, _ = torch.linalg.qr(Y)
+        Y = orthonormalize(Y)
         # A @ B @ C @ D @ Y
         Y = A @ (B @ (C @ (D @ Y)))
 
-    Q, _ = torch.linalg.qr(Y)
+    Q = orthonormalize(Y)
 
     # B_proj = Q^H @ A @ B @ C @ D = ((Q^H @ A) @ B @ C) @ D
     B_proj = (((Q.mH @ A) @ B) @ C) @ D
diff --git a/acetn/linalg/fused_matmul_svd_lowrank.py b/acetn/linalg/fused_matmul_svd_lowrank.py
index e0dfe0f..fc952f3 100644
--- a/acetn/linalg/fused_matmul_svd_lowrank.py
+++ b/acetn/linalg/fused_matmul_svd_lowrank.py
@@ -1,4 +1,5 @@
 import torch
+from .orthonormalize import orthonormalize
 
 
 def fused_matmul_svd_lowrank(A, B, q=6, niter=2):
@@ -35,12 +36,12 @@ def fused_matmul_svd_lowrank(A, B, q=6, niter=2):
     Y = A @ (B @ Omega)
 
     for _ in range(niter):
-        Y, _ = torch.linalg.qr(Y)
+        Y = orthonormalize(Y)
         # (A @ B)^H @ Y = B^H @ (A^H @ Y)
         # (A @ B) @ ((A @ B)^H @ Y) = A @ (B @ (B^H @ (A^H @ Y)))
         Y = A @ (B @ (B.mH @ (A.mH @ Y)))
 
-    Q, _ = torch.linalg.qr(Y)
+    Q = orthonormalize(Y)
 
     # B_proj = Q^H @ (A @ B) = (Q^H @ A) @ B
     B = (Q.mH @ A) @ B
diff --git a/acetn/linalg/orthonormalize.py b/acetn/linalg/orthonormalize.py
new file mode 100644
index 0000000..fce9ac7
--- /dev/null
+++ b/acetn/linalg/orthonormalize.py
@@ -0,0 +1,23 @@
+import torch
+
+
+def orthonormalize(Y):
+    """
+    Return a matrix with orthonormal columns whose span contains the columns of Y.
+
+    Args:
+        Y (Tensor): Matrix of shape (m, q) with q <= m.
+
+    Returns:
+        Tensor: Matrix of shape (m, q) with orthonormal columns.
+
+    Note:
+        The QR decomposition of LAPACK can return NaN for finite complex matrices that
+        are rank deficient up to residuals near the underflow threshold. In this case
+        the decomposition is repeated with noise far below the rounding error of Y.
+    """
+    Q, _ = torch.linalg.qr(Y)
+    if not torch.isfinite(Q).all() and torch.isfinite(Y).all():
+        eps = torch.finfo(Y.dtype).eps
+        Q, _ = torch.linalg.qr(Y + eps**2 * Y.abs().max() * torch.randn_like(Y))
+    return Q
diff --git a/acetn/linalg/svd_lowrank.py b/acetn/linalg/svd_lowrank.py
index f2c48a1..a4f102d 100644
--- a/acetn/linalg/svd_lowrank.py
+++ b/acetn/linalg/svd_lowrank.py
@@ -1,4 +1,5 @@
 import torch
+from .orthonormalize import orthonormalize
 
 
 def svd_lowrank(A, q=6, niter=2):
@@ -33,10 +34,10 @@ def svd_lowrank(A, q=6, niter=2):
     Y = A @ Omega
 
     for _ in range(niter):
-        Y, _ = torch.linalg.qr(Y)
+        Y = orthonormalize(Y)
         Y = A @ (A.mH @ Y)
 
-    Q, _ = torch.linalg.qr(Y)
+    Q = orthonormalize(Y)
     B = Q.mH @ A
     U_B, S, Vh = torch.linalg.svd(B, full_matrices=False)
     U = Q @ U_B
-- 
2.43.0


From 900b71fb3686723337810c3862b3c28407818631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:42 +0000
Subject: [PATCH 22/27] fix: keep the process group when one of several
 networks is deleted

---
 acetn/ipeps/ipeps.py       | 7 -------
 acetn/utils/distributed.py | 3 +++
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/acetn/ipeps/ipeps.py b/acetn/ipeps/ipeps.py
index 2c9af63..b928136 100644
--- a/acetn/ipeps/ipeps.py
+++ b/acetn/ipeps/ipeps.py
@@ -41,13 +41,6 @@ class Ipeps(TensorNetwork):
         self.site_states_initialized = ipeps is not None
         self.model_cls = None
 
-    def __del__(self):
-        """
-        Finalize the distributed environment upon object deletion.
-        """
-        if self.is_distributed:
-            finalize_distributed()
-
     def setup_distributed(self):
         """
         Set up distributed environment if available.
diff --git a/acetn/utils/distributed.py b/acetn/utils/distributed.py
index 0fad466..aec95df 100644
--- a/acetn/utils/distributed.py
+++ b/acetn/utils/distributed.py
@@ -1,6 +1,7 @@
 import torch
 import torch.distributed as dist
 import os
+import atexit
 import builtins
 from tqdm import tqdm
 from torch.distributed.elastic.multiprocessing.errors import record
@@ -57,6 +58,8 @@ def setup_process_group(rank, world_size, device):
     if world_size > 1 and not dist.is_initialized():
         backend = "nccl" if torch.cuda.is_available() else "gloo"
         dist.init_process_group(backend=backend, rank=rank, world_size=world_size)
+        # the process group is shared by all networks of the process
+        atexit.register(finalize_distributed)
         assert rank == dist.get_rank()
         assert world_size == dist.get_world_size()
         if device != torch.device("cpu"):
-- 
2.43.0


From 25cc065b4dfdb4d038d503ef1c2802a6e2acf5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:21 +0000
Subject: [PATCH 23/27] fix: solve indefinite systems in the C++ solver as the
 torch backend does

---
 csrc/linalg/cholesky_solve.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/csrc/linalg/cholesky_solve.h b/csrc/linalg/cholesky_solve.h
index 8f2e78f..92df99d 100644
--- a/csrc/linalg/cholesky_solve.h
+++ b/csrc/linalg/cholesky_solve.h
@@ -104,6 +104,11 @@ torch::Tensor cholesky_solve_impl(torch::Tensor A, torch::Tensor B) {
     auto info_ptr = devInfo.data_ptr<int>();
 
     CUSOLVER_CHECK(potrf(handle, CUBLAS_FILL_MODE_LOWER, n, A_ptr, n, work_ptr, lwork, info_ptr));
+
+    // Same fallback as the torch backend when A is not numerically positive definite
+    if (devInfo.item<int>() != 0) {
+        return torch::linalg_solve(A, B).contiguous();
+    }
     CUSOLVER_CHECK(potrs(handle, CUBLAS_FILL_MODE_LOWER, n, nrhs, A_ptr, n, B_ptr, n, info_ptr));
 
     return B_.contiguous();
-- 
2.43.0


From fd39f221a890a7fc46b731eb1c2966eedbd71b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:18 +0000
Subject: [PATCH 24/27] fix: start distributed runs from the same initial
 tensors on all processes

---
 acetn/ipeps/ipeps.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/acetn/ipeps/ipeps.py b/acetn/ipeps/ipeps.py
index b928136..b96f13c 100644
--- a/acetn/ipeps/ipeps.py
+++ b/acetn/ipeps/ipeps.py
@@ -1,4 +1,5 @@
 import torch
+import torch.distributed as dist
 from tqdm import tqdm
 from .ipeps_config import IpepsConfig
 from .tensor_network import TensorNetwork
@@ -49,6 +50,21 @@ class Ipeps(TensorNetwork):
         self.rank, self.world_size, self.device, self.is_distributed \
             = setup_distributed(self.device)
 
+    def initialize_site_tensors(self, site_state_map):
+        """
+        Initialize the tensors of all sites, equally on all processes.
+
+        Args:
+            site_state_map (callable): Returns the initial state of a site.
+        """
+        super().initialize_site_tensors(site_state_map)
+        if self.is_distributed:
+            # the random states of the processes can differ
+            for site in self.site_list:
+                dist.broadcast(self[site]['A'], src=0)
+                self[site].initialize_corner_tensors()
+                self[site].initialize_edge_tensors()
+
     def set_chi(self, chi):
         """
         Set the boundary bond dimension chi.
-- 
2.43.0


From 74d045514f0b09eb13a28ef6208e76d215832451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:47 +0000
Subject: [PATCH 25/27] fix: apply the documented defaults to missing
 dimensions and reject unknown ones

---
 acetn/ipeps/ipeps_config.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/acetn/ipeps/ipeps_config.py b/acetn/ipeps/ipeps_config.py
index 59d746d..2bd9c5e 100644
--- a/acetn/ipeps/ipeps_config.py
+++ b/acetn/ipeps/ipeps_config.py
@@ -14,7 +14,11 @@ class TNConfig:
         default_factory=lambda: {'phys': 2, 'bond': 2, 'chi': 20})
 
     def __post_init__(self):
-        self.dims = dict(self.dims)
+        defaults = TNConfig.__dataclass_fields__['dims'].default_factory()
+        for name in self.dims:
+            if name not in defaults:
+                raise TypeError(f"Unknown dimension: {name}")
+        self.dims = {**defaults, **self.dims}
 
 @dataclass
 class CTMRGConfig:
-- 
2.43.0


From 467a8fa6fc50e21ae9b32719e5bfbcdb5939252b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:03 +0000
Subject: [PATCH 26/27] fix: let the pinv method of the ALS discard what is
 below the rounding errors of the dtype

---
 acetn/evolution/als_solver.py | 4 +++-
 csrc/evolution/als_solve.cpp  | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/acetn/evolution/als_solver.py b/acetn/evolution/als_solver.py
index 200b1ab..bece869 100644
--- a/acetn/evolution/als_solver.py
+++ b/acetn/evolution/als_solver.py
@@ -225,7 +225,9 @@ class ALSSolver:
                 except:
                     ar = torch.linalg.solve(R, S)
             case "pinv":
-                R_inv = pinv(R, hermitian=True, rcond=self.epsilon)
+                # eigenvalues below the rounding errors of the dtype carry no information
+                rcond = max(self.epsilon, R.shape[0]*torch.finfo(R.dtype).eps)
+                R_inv = pinv(R, hermitian=True, rcond=rcond)
                 ar = R_inv @ S
         return ar.reshape(nD, bD, pD)
 
diff --git a/csrc/evolution/als_solve.cpp b/csrc/evolution/als_solve.cpp
index d6259e2..16d22a1 100644
--- a/csrc/evolution/als_solve.cpp
+++ b/csrc/evolution/als_solve.cpp
@@ -1,7 +1,9 @@
 #include <torch/extension.h>
 #include "als_tensors.h"
 #include "linalg/cholesky_solve.h"
+#include <algorithm>
 #include <cmath>
+#include <limits>
 #include <string>
 #include <tuple>
 
@@ -45,7 +47,9 @@ Tensor solve_ar(Tensor R, Tensor S, SolverMethod method, scalar_t epsilon) {
             return cusolver_ext::cholesky_solve(R, S).reshape({nD, bD, pD});
         }
         case SolverMethod::Pinv: {
-            auto R_inv = torch::linalg_pinv(R, epsilon, true);
+            // eigenvalues below the rounding errors of the dtype carry no information
+            double rcond = std::max<double>(epsilon, R.size(0) * std::numeric_limits<scalar_t>::epsilon());
+            auto R_inv = torch::linalg_pinv(R, rcond, true);
             return (R_inv.matmul(S)).reshape({nD, bD, pD});
         }
     }
-- 
2.43.0


From aadbbb185ce6d5bcee147d8312cae1f82821667a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:18 +0000
Subject: [PATCH 27/27] fix: normalize measured density matrices by their
 complex trace

---
 acetn/measurement/measure.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/acetn/measurement/measure.py b/acetn/measurement/measure.py
index dc6e0f4..3a19917 100644
--- a/acetn/measurement/measure.py
+++ b/acetn/measurement/measure.py
@@ -130,7 +130,9 @@ def calculate_one_site_measurements(site_list, model, rdm, measurements, measure
         tqdm.write("site\t" + "\t".join([key[:10].ljust(10) for key in one_site_keys]))
 
     for site in site_list:
+        # boundary tensors give the density matrix up to a factor, which may be complex
         site_rdm = rdm[site]
+        site_rdm = site_rdm/einsum("pp->", site_rdm)
         site_norm = einsum("pp->", site_rdm).real
 
         measurements_ave['Energy'] += measure_site_energy(site, site_rdm, site_norm, model)
@@ -160,6 +162,7 @@ def calculate_two_site_measurements(bond_list, model, rdm, measurements, measure
         tqdm.write("site 1\t" + "site 2\t" + "\t".join([key[:10].ljust(10) for key in two_site_keys]))
     for bond in bond_list:
         bond_rdm = rdm[bond]
+        bond_rdm = bond_rdm/einsum("pqpq->", bond_rdm)
         bond_norm = einsum("pqpq->", bond_rdm).real
 
         measurements_ave['Energy'] += measure_bond_energy(bond, bond_rdm, bond_norm, model)
-- 
2.43.0

