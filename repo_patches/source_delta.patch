From 663091d43d57ed80be47b2e580f0156848054809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:05 +0000
Subject: [PATCH 01/21] fix: full-system rsvd projectors used the adjoint
 instead of the transpose

For complex tensors proj1 must be R1.T @ conj(U) with R1 = Q2 @ Q1; the
adjoints conjugated the half system a second time, so the projectors did not
resolve the identity.
---
 acetn/renormalization/projectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/renormalization/projectors.py b/acetn/renormalization/projectors.py
index 71c45e1..28bd3c2 100644
--- a/acetn/renormalization/projectors.py
+++ b/acetn/renormalization/projectors.py
@@ -207,7 +207,7 @@ class ProjectorCalculator:
         V = V[:, :cD_new] * (1. / sqrt(s[:cD_new]))
 
         # proj1 = R1.T @ conj(U) = (Q2 @ Q1).T @ conj(U) = Q1.T @ (Q2.T @ conj(U))
-        proj1 = Q1.mH @ (Q2.mH @ conj(U))
+        proj1 = Q1.mT @ (Q2.mT @ conj(U))
         proj1 = proj1.view(*q1D[3:], cD_new)
 
         # proj2 = R2 @ V = (Q4 @ Q3) @ V = Q4 @ (Q3 @ V)
-- 
2.43.0


From a7a563d4af27cabf9f87d7d9349ff00b30d0e549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:44 +0000
Subject: [PATCH 02/21] fix: distributed boundary moves for any number of ranks
 and on the cpu backend

The row index advanced by one per round instead of by the number of rows handled
per round, so with four or more ranks (or an odd number) rows were repeated,
skipped or left unset on some ranks. Gathered tensors were also sent to
device <rank>, which does not exist on the cpu/gloo backend.
---
 acetn/renormalization/directional_mover.py | 54 ++++++++++------------
 acetn/utils/distributed.py                 |  2 +-
 2 files changed, 25 insertions(+), 31 deletions(-)

diff --git a/acetn/renormalization/directional_mover.py b/acetn/renormalization/directional_mover.py
index 807bfab..ad2c185 100644
--- a/acetn/renormalization/directional_mover.py
+++ b/acetn/renormalization/directional_mover.py
@@ -192,24 +192,21 @@ class DirectionalMover:
         rank, ws = ipeps.rank, ipeps.world_size
         proj1l, proj2l = {}, {}
         proj1r, proj2r = {}, {}
-        for y_shift in range(0, 2*ipeps.ny, ws):
-            if rank < ws//2:
-                yi = rank + y_shift//ws
-                if yi < ipeps.ny:
-                    proj1_i, proj2_i = self.calculate_left_projectors(ipeps, x1, yi)
-            elif rank >= ws//2:
-                yi = rank - ws//2 + y_shift//ws
-                if yi < ipeps.ny:
-                    proj1_i, proj2_i = self.calculate_right_projectors(ipeps, x2, yi)
+        half = ws//2
+        for y_start in range(0, ipeps.ny, half):
+            yi = (y_start + rank % half) % ipeps.ny
+            if rank < half:
+                proj1_i, proj2_i = self.calculate_left_projectors(ipeps, x1, yi)
+            else:
+                proj1_i, proj2_i = self.calculate_right_projectors(ipeps, x2, yi)
 
             proj1_all = all_gather_tensor(proj1_i, rank, ws)
             proj2_all = all_gather_tensor(proj2_i, rank, ws)
-
-            for yi in range(ws//2):
-                proj1l[yi + y_shift//ws] = proj1_all[yi].to(rank)
-                proj2l[yi + y_shift//ws] = proj2_all[yi].to(rank)
-                proj1r[yi + y_shift//ws] = proj1_all[yi + ws//2].to(rank)
-                proj2r[yi + y_shift//ws] = proj2_all[yi + ws//2].to(rank)
+            for i in range(min(half, ipeps.ny - y_start)):
+                proj1l[y_start + i] = proj1_all[i]
+                proj2l[y_start + i] = proj2_all[i]
+                proj1r[y_start + i] = proj1_all[i + half]
+                proj2r[y_start + i] = proj2_all[i + half]
 
         for yi in range(ipeps.ny):
             xj = (x1+1) % ipeps.nx
@@ -237,24 +234,21 @@ class DirectionalMover:
         rank, ws = ipeps.rank, ipeps.world_size
         proj1u, proj2u = {}, {}
         proj1d, proj2d = {}, {}
-        for x_shift in range(0, 2*ipeps.nx, ws):
-            if rank < ws//2:
-                xi = rank + x_shift//ws
-                if xi < ipeps.nx:
-                    proj1_i, proj2_i = self.calculate_up_projectors(ipeps, xi, y1)
-            elif rank >= ws//2:
-                xi = rank - ws//2 + x_shift//ws
-                if xi < ipeps.nx:
-                    proj1_i, proj2_i = self.calculate_down_projectors(ipeps, xi, y2)
+        half = ws//2
+        for x_start in range(0, ipeps.nx, half):
+            xi = (x_start + rank % half) % ipeps.nx
+            if rank < half:
+                proj1_i, proj2_i = self.calculate_up_projectors(ipeps, xi, y1)
+            else:
+                proj1_i, proj2_i = self.calculate_down_projectors(ipeps, xi, y2)
 
             proj1_all = all_gather_tensor(proj1_i, rank, ws)
             proj2_all = all_gather_tensor(proj2_i, rank, ws)
-
-            for xi in range(ws//2):
-                proj1u[xi + x_shift//ws] = proj1_all[xi].to(rank)
-                proj2u[xi + x_shift//ws] = proj2_all[xi].to(rank)
-                proj1d[xi + x_shift//ws] = proj1_all[xi + ws//2].to(rank)
-                proj2d[xi + x_shift//ws] = proj2_all[xi + ws//2].to(rank)
+            for i in range(min(half, ipeps.nx - x_start)):
+                proj1u[x_start + i] = proj1_all[i]
+                proj2u[x_start + i] = proj2_all[i]
+                proj1d[x_start + i] = proj1_all[i + half]
+                proj2d[x_start + i] = proj2_all[i + half]
 
         for xi in range(ipeps.nx):
             xj = (xi+1) % ipeps.nx
diff --git a/acetn/utils/distributed.py b/acetn/utils/distributed.py
index b099853..8665cfc 100644
--- a/acetn/utils/distributed.py
+++ b/acetn/utils/distributed.py
@@ -101,7 +101,7 @@ def all_gather_tensor(tensor, rank, ws):
     # gather tensors
     tensor_all = []
     for i in range(ws):
-        tensor_buf_shape = list(tensor_all_shapes[i].to(rank))
+        tensor_buf_shape = tensor_all_shapes[i].tolist()
         tensor_buf = torch.empty(tensor_buf_shape, dtype=tensor.dtype, device=tensor.device)
         tensor_all.append(tensor_buf)
     dist.all_gather(tensor_all, tensor)
-- 
2.43.0


From aa798931f51ee57ffd9bb63c1820e330acc39571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:23 +0000
Subject: [PATCH 03/21] fix: gather projectors of different ranks between
 workers

all_gather requires equal shapes on the gloo backend, but truncated projectors
may have different bond dimensions; broadcast each worker's tensor instead.
---
 acetn/utils/distributed.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/acetn/utils/distributed.py b/acetn/utils/distributed.py
index 8665cfc..8c68ddb 100644
--- a/acetn/utils/distributed.py
+++ b/acetn/utils/distributed.py
@@ -104,5 +104,8 @@ def all_gather_tensor(tensor, rank, ws):
         tensor_buf_shape = tensor_all_shapes[i].tolist()
         tensor_buf = torch.empty(tensor_buf_shape, dtype=tensor.dtype, device=tensor.device)
         tensor_all.append(tensor_buf)
-    dist.all_gather(tensor_all, tensor)
+    # the shapes may differ between workers, which all_gather does not support on every backend
+    tensor_all[rank].copy_(tensor)
+    for i in range(ws):
+        dist.broadcast(tensor_all[i], src=i)
     return tensor_all
\ No newline at end of file
-- 
2.43.0


From 5929a98e14764c2073ba2f6818685df4cb39dbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:31 +0000
Subject: [PATCH 04/21] fix: every network owns its site tensors

---
 acetn/ipeps/tensor_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/ipeps/tensor_network.py b/acetn/ipeps/tensor_network.py
index 26d2c45..333f9d5 100644
--- a/acetn/ipeps/tensor_network.py
+++ b/acetn/ipeps/tensor_network.py
@@ -9,7 +9,6 @@ class TensorNetwork:
     This class handles the construction, initialization, and manipulation of a tensor network.
     It supports operations such as saving, loading, and setting up tensor networks, as well as managing the tensors.
     """
-    _tensor_network = {}
     def __init__(self, tensor_network, config, dtype, device):
         """
         Initializes the TensorNetwork object.
@@ -28,6 +27,7 @@ class TensorNetwork:
         self.dtype = dtype
         self.device = device
 
+        self._tensor_network = {}
         self.setup_tensor_network(tensor_network)
 
     def __getitem__(self, site):
-- 
2.43.0


From 9e952b020063d3fecfd4e22f2df742181561ed66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:31 +0000
Subject: [PATCH 05/21] fix: saving a network leaves it as it was

---
 acetn/ipeps/tensor_network.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/acetn/ipeps/tensor_network.py b/acetn/ipeps/tensor_network.py
index 333f9d5..6ea2190 100644
--- a/acetn/ipeps/tensor_network.py
+++ b/acetn/ipeps/tensor_network.py
@@ -106,7 +106,6 @@ class TensorNetwork:
             "tensors": tn_cpu._tensor_network,
         }
         torch.save(state_dict, filename)
-        self.load(filename)
 
     def load(self, filename):
         """
-- 
2.43.0


From 377026317b226fd0ea641d345d01dbac3115e0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:31 +0000
Subject: [PATCH 06/21] fix: networks do not share dimensions or model
 parameters

---
 acetn/ipeps/ipeps.py          | 2 +-
 acetn/ipeps/ipeps_config.py   | 5 +++--
 acetn/ipeps/tensor_network.py | 5 +++--
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/acetn/ipeps/ipeps.py b/acetn/ipeps/ipeps.py
index 467f571..1f9bb6a 100644
--- a/acetn/ipeps/ipeps.py
+++ b/acetn/ipeps/ipeps.py
@@ -77,7 +77,7 @@ class Ipeps(TensorNetwork):
         name = "custom" if name is None else name.lower()
         model_factory.register(name, model_cls)
         self.config.model.name = name
-        self.config.model.params = params
+        self.config.model.params = dict(params or {})
 
     def set_model_params(self, **kwargs):
         """
diff --git a/acetn/ipeps/ipeps_config.py b/acetn/ipeps/ipeps_config.py
index a456fb7..db96554 100644
--- a/acetn/ipeps/ipeps_config.py
+++ b/acetn/ipeps/ipeps_config.py
@@ -1,3 +1,4 @@
+import copy
 import torch
 import os
 from dataclasses import dataclass, field
@@ -57,14 +58,14 @@ class IpepsConfig:
     def __post_init__(self):
         self.set_dtype(self.dtype)
         self.set_device(self.device)
-        self.TN = TNConfig(**self.TN)
+        self.TN = TNConfig(**copy.deepcopy(self.TN))
         self.ctmrg = CTMRGConfig(**self.ctmrg)
         self.evolution = EvolutionConfig(**self.evolution)
         self.validate_backend()
         self.model = ModelConfig(dtype=self.dtype,
                            device=self.device,
                            dim=self.TN.dims['phys'],
-                           **self.model)
+                           **copy.deepcopy(self.model))
         # disable tqdm progress bar in SLURM environment
         self.disable_pbar_if_slurm()
 
diff --git a/acetn/ipeps/tensor_network.py b/acetn/ipeps/tensor_network.py
index 6ea2190..424cc7a 100644
--- a/acetn/ipeps/tensor_network.py
+++ b/acetn/ipeps/tensor_network.py
@@ -1,3 +1,4 @@
+import copy
 import torch
 from .site_tensor import SiteTensor
 from .bond import Bond
@@ -74,7 +75,7 @@ class TensorNetwork:
         Returns:
             TensorNetwork: A new `TensorNetwork` with identical contents and metadata.
         """
-        return TensorNetwork(tensor_network=self, config=self.tn_config, dtype=self.dtype, device=self.device)
+        return TensorNetwork(tensor_network=self, config=copy.deepcopy(self.tn_config), dtype=self.dtype, device=self.device)
 
     def to(self, dtype=None, device=None):
         """
@@ -89,7 +90,7 @@ class TensorNetwork:
         """
         device = device or self.device
         dtype = dtype or self.dtype
-        return TensorNetwork(tensor_network=self, config=self.tn_config, dtype=dtype, device=device)
+        return TensorNetwork(tensor_network=self, config=copy.deepcopy(self.tn_config), dtype=dtype, device=device)
 
     def save(self, filename='ipeps.pt'):
         """
-- 
2.43.0


From 4556b42f68e10602a41be3d1828f621ba84ca763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:31 +0000
Subject: [PATCH 07/21] fix: evolve continues from the state given to the
 constructor

---
 acetn/ipeps/ipeps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/ipeps/ipeps.py b/acetn/ipeps/ipeps.py
index 1f9bb6a..3e618b6 100644
--- a/acetn/ipeps/ipeps.py
+++ b/acetn/ipeps/ipeps.py
@@ -38,7 +38,7 @@ class Ipeps(TensorNetwork):
         self.setup_distributed()
         log_initial_message(self.device, config)
         super().__init__(ipeps, self.config.TN, self.dtype, self.device)
-        self.site_states_initialized = False
+        self.site_states_initialized = ipeps is not None
 
     def __del__(self):
         """
-- 
2.43.0


From f478a8856e07d39d449c3a204dd3b531d5936352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:31 +0000
Subject: [PATCH 08/21] fix: every time evolution owns its gates

---
 acetn/evolution/gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/evolution/gate.py b/acetn/evolution/gate.py
index 99bae1f..1637a40 100644
--- a/acetn/evolution/gate.py
+++ b/acetn/evolution/gate.py
@@ -6,7 +6,6 @@ class Gate:
     A class representing quantum gates for one-site and two-site Hamiltonians, 
     used in time evolution algorithms.
     """
-    _gate = {}
     def __init__(self, model, dtau, bond_list=None, site_list=None):
         """
         Initializes the Gate object, creating gates for the given model.
@@ -25,6 +24,7 @@ class Gate:
         self.dtype = model.dtype
         self.device = model.device
         self.wrap_one_site = True
+        self._gate = {}
         if site_list is not None:
             self.build_one_site_gates(model, dtau, site_list)
         if bond_list is not None:
-- 
2.43.0


From 5f18edac311b3eba321de75f380cc6e7b04604a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:31 +0000
Subject: [PATCH 09/21] fix: gates keep every one-site term, accept tensors and
 leave the model's matrices alone

---
 acetn/evolution/gate.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/acetn/evolution/gate.py b/acetn/evolution/gate.py
index 1637a40..29a187e 100644
--- a/acetn/evolution/gate.py
+++ b/acetn/evolution/gate.py
@@ -59,6 +59,11 @@ class Gate:
         """
         self._gate[key] = gate
 
+    @staticmethod
+    def get_matrix(ham):
+        """Matrix of a Hamiltonian term given as an operator object or a plain tensor."""
+        return ham.mat if hasattr(ham, 'mat') else ham
+
     def build_one_site_gates(self, model, dtau, site_list):
         """
         Builds the one-site gates for the given list of sites by calculating the exponential of
@@ -77,7 +82,7 @@ class Gate:
             site_ham = model.one_site_hamiltonian(site)
             if site_ham is not None:
                 scale = 1. if self.wrap_one_site else 0.25
-                self[site] = self.calculate_gate(site_ham.mat, scale*dtau)
+                self[site] = self.calculate_gate(self.get_matrix(site_ham), scale*dtau)
 
     def build_two_site_gates(self, model, dtau, bond_list):
         """
@@ -95,15 +100,15 @@ class Gate:
         """
         for bond in bond_list:
             pD = model.dim
-            bond_ham = model.two_site_hamiltonian(bond).mat
+            bond_ham = self.get_matrix(model.two_site_hamiltonian(bond))
             if self.wrap_one_site:
                 id_mat = torch.eye(pD, dtype=self.dtype, device=self.device)
                 site_ham_1 = model.one_site_hamiltonian(bond.s1)
                 site_ham_2 = model.one_site_hamiltonian(bond.s2)
-                if site_ham_1 is not None and site_ham_2 is not None:
-                    site_ham_1 = torch.kron(site_ham_1.mat, id_mat)
-                    site_ham_2 = torch.kron(id_mat, site_ham_2.mat)
-                    bond_ham += 0.25*(site_ham_1 + site_ham_2)
+                if site_ham_1 is not None:
+                    bond_ham = bond_ham + 0.25*torch.kron(self.get_matrix(site_ham_1), id_mat)
+                if site_ham_2 is not None:
+                    bond_ham = bond_ham + 0.25*torch.kron(id_mat, self.get_matrix(site_ham_2))
             self[bond] = self.calculate_gate(bond_ham, dtau).reshape(pD,pD,pD,pD)
 
     def calculate_gate(self, ham, dtau):
-- 
2.43.0


From 8d16a1aa3ae6d238e99588ad7260b18018ba91f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:04 +0000
Subject: [PATCH 10/21] fix: simple update with complex tensors

---
 acetn/evolution/lambda_tensors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/evolution/lambda_tensors.py b/acetn/evolution/lambda_tensors.py
index fb9e9fd..b22b9ea 100644
--- a/acetn/evolution/lambda_tensors.py
+++ b/acetn/evolution/lambda_tensors.py
@@ -16,7 +16,7 @@ class LambdaTensors:
         self._site_bonds = {}
 
         for bond in bond_list:
-            self._data[bond] = torch.ones(bD, dtype=dtype, device=device)
+            self._data[bond] = torch.ones(bD, dtype=dtype.to_real(), device=device)
             self._site_bonds.setdefault(bond.s1, {})[bond.k] = bond
             self._site_bonds.setdefault(bond.s2, {})[(bond.k + 2) % 4] = bond
 
-- 
2.43.0


From 871d7eb7c00418702c048d587e0cc111a1e9e9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:04 +0000
Subject: [PATCH 11/21] fix: sign of real-valued products of sums of Pauli Y
 operators

---
 acetn/model/pauli_matrix.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/acetn/model/pauli_matrix.py b/acetn/model/pauli_matrix.py
index 5083e01..a95097a 100644
--- a/acetn/model/pauli_matrix.py
+++ b/acetn/model/pauli_matrix.py
@@ -85,7 +85,7 @@ class PauliMatrix:
             PauliMatrix or torch.Tensor: A new `PauliMatrix` object (in the case of scalar) or a tensor (in the case of matrix Kronecker product).
         """
         if isinstance(other, (PauliMatrix)):
-            return torch.kron(self.mat, other.mat)
+            return (self*other).mat
         else:
             return PauliMatrix(self.key, self.dtype, self.device, mat=other*self.mat)
 
@@ -116,7 +116,7 @@ class PauliMatrix:
             PauliMatrix: A new `PauliMatrix` object containing the result of the addition.
         """
         if isinstance(other, (PauliMatrix)):
-            return PauliMatrix(self.key + other.key, self.dtype, self.device, mat=(self.mat + other.mat))
+            return PauliMatrix(self.key, self.dtype, self.device, mat=(self.mat + other.mat))
 
     def __sub__(self, other):
         """
@@ -131,7 +131,7 @@ class PauliMatrix:
             PauliMatrix: A new `PauliMatrix` object containing the result of the subtraction.
         """
         if isinstance(other, (PauliMatrix)):
-            return PauliMatrix(self.key + other.key, self.dtype, self.device, mat=(self.mat - other.mat))
+            return PauliMatrix(self.key, self.dtype, self.device, mat=(self.mat - other.mat))
 
     def __neg__(self):
         """
-- 
2.43.0


From 33d3c83b14c35954939487b0bdf33200edb6ddd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:04 +0000
Subject: [PATCH 12/21] fix: documented default of the Heisenberg coupling

---
 acetn/ipeps/ipeps_config.py      | 2 +-
 acetn/model/models/heisenberg.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/acetn/ipeps/ipeps_config.py b/acetn/ipeps/ipeps_config.py
index db96554..2e7f748 100644
--- a/acetn/ipeps/ipeps_config.py
+++ b/acetn/ipeps/ipeps_config.py
@@ -43,7 +43,7 @@ class ModelConfig:
     device: torch.device
     dim: int
     name: str = None
-    params: Dict[str, int] = None
+    params: Dict[str, int] = field(default_factory=dict)
 
 @dataclass
 class IpepsConfig:
diff --git a/acetn/model/models/heisenberg.py b/acetn/model/models/heisenberg.py
index 518dbe9..326ba56 100644
--- a/acetn/model/models/heisenberg.py
+++ b/acetn/model/models/heisenberg.py
@@ -21,6 +21,6 @@ class HeisenbergModel(Model):
 
     def two_site_hamiltonian(self, bond):
         r"""$H_{ij} = \vec{S}_i\cdot\vec{S}_j$"""
-        J = self.params.get('J')
+        J = self.params.get('J', 1.0)
         X,Y,Z,I = pauli_matrices(self.dtype, self.device)
         return 0.25*J*(X*X + Y*Y + Z*Z)
-- 
2.43.0


From 192ac0fdbbf2f5f068e6703d9e1322438bbc4ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:04 +0000
Subject: [PATCH 13/21] fix: a custom model applies to the network it was set
 on

---
 acetn/ipeps/ipeps.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/acetn/ipeps/ipeps.py b/acetn/ipeps/ipeps.py
index 3e618b6..66c5619 100644
--- a/acetn/ipeps/ipeps.py
+++ b/acetn/ipeps/ipeps.py
@@ -33,6 +33,7 @@ class Ipeps(TensorNetwork):
             ipeps (optional): Initial iPEPS tensor network.
         """
         self.config = IpepsConfig(**config)
+        self._custom_models = {}
         self.dtype = self.config.dtype
         self.device = self.config.device
         self.setup_distributed()
@@ -76,9 +77,19 @@ class Ipeps(TensorNetwork):
         """
         name = "custom" if name is None else name.lower()
         model_factory.register(name, model_cls)
+        self._custom_models[name] = model_cls
         self.config.model.name = name
         self.config.model.params = dict(params or {})
 
+    def create_model(self):
+        """
+        Create the model of this network: the one set with set_model, or a registered one.
+        """
+        model_cls = self._custom_models.get(self.config.model.name)
+        if model_cls is not None:
+            return model_cls(self.config.model)
+        return model_factory.create(self.config.model)
+
     def set_model_params(self, **kwargs):
         """
         Update model parameters.
@@ -106,7 +117,7 @@ class Ipeps(TensorNetwork):
             steps (int): Number of evolution steps.
             model (optional): Custom model instance to use.
         """
-        model = model_factory.create(self.config.model) if model is None else model
+        model = self.create_model() if model is None else model
         if not self.site_states_initialized:
             self.initialize_site_tensors(model.initial_site_state)
         log_evolve_start_message(dtau, self.dims, model)
@@ -124,5 +135,5 @@ class Ipeps(TensorNetwork):
         Returns:
             dict: Measurement results.
         """
-        model = model_factory.create(self.config.model) if model is None else model
+        model = self.create_model() if model is None else model
         return measure(self, model)
-- 
2.43.0


From 611aa199d63631a2eb3e3c266c3eea5272f4b9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:01 +0000
Subject: [PATCH 14/21] fix: start of the alternating least squares with
 complex tensors

---
 acetn/evolution/als_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/evolution/als_solver.py b/acetn/evolution/als_solver.py
index ec1a6b5..200b1ab 100644
--- a/acetn/evolution/als_solver.py
+++ b/acetn/evolution/als_solver.py
@@ -137,7 +137,7 @@ class ALSSolver:
         nD,bD,pD = ar_shape
         a12g_tmp = einsum("yxpq->ypxq", a12g).reshape(nD*pD, nD*pD)
         U,S,Vh = svd(a12g_tmp)
-        V = Vh.mH
+        V = Vh.mT
         S = torch.sqrt(S[:bD]/S[0])
         U = U[:,:bD].reshape(nD,pD,bD)
         V = V[:,:bD].reshape(nD,pD,bD)
-- 
2.43.0


From b6f3db40160ba51e78070fcdd4087e8da255df17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:34 +0000
Subject: [PATCH 15/21] fix: a copied site tensor owns its dimensions

---
 acetn/ipeps/site_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acetn/ipeps/site_tensor.py b/acetn/ipeps/site_tensor.py
index 1a61723..efef28f 100644
--- a/acetn/ipeps/site_tensor.py
+++ b/acetn/ipeps/site_tensor.py
@@ -100,7 +100,7 @@ class SiteTensor:
         Returns:
             SiteTensor: A new `SiteTensor` with identical contents and metadata.
         """
-        return SiteTensor(dims=self.dims, site_tensor=self, dtype=self.dtype, device=self.device)
+        return SiteTensor(dims=dict(self.dims), site_tensor=self, dtype=self.dtype, device=self.device)
 
     def to(self, dtype=None, device=None):
         """
@@ -115,7 +115,7 @@ class SiteTensor:
         """
         device = device or self.device
         dtype = dtype or self.dtype
-        return SiteTensor(dims=self.dims, site_tensor=self, dtype=dtype, device=device)
+        return SiteTensor(dims=dict(self.dims), site_tensor=self, dtype=dtype, device=device)
 
     def initialize_site_tensor(self, site_state=[1.,], noise=0.0):
         """
-- 
2.43.0


From de46e7ebe628099a6933eb2301c7b70e8174a4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:33 +0000
Subject: [PATCH 16/21] fix: solve without Cholesky in the C++ solver when the
 factorisation fails

cholesky_solve ignored devInfo and went on with a broken factor, where the
torch solver falls back to a general solve.
---
 csrc/linalg/cholesky_solve.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/csrc/linalg/cholesky_solve.h b/csrc/linalg/cholesky_solve.h
index 8f2e78f..e67cdc9 100644
--- a/csrc/linalg/cholesky_solve.h
+++ b/csrc/linalg/cholesky_solve.h
@@ -104,6 +104,9 @@ torch::Tensor cholesky_solve_impl(torch::Tensor A, torch::Tensor B) {
     auto info_ptr = devInfo.data_ptr<int>();
 
     CUSOLVER_CHECK(potrf(handle, CUBLAS_FILL_MODE_LOWER, n, A_ptr, n, work_ptr, lwork, info_ptr));
+    if (devInfo.item<int>() != 0) {
+        return torch::linalg_solve(A, B).contiguous();
+    }
     CUSOLVER_CHECK(potrs(handle, CUBLAS_FILL_MODE_LOWER, n, nrhs, A_ptr, n, B_ptr, n, info_ptr));
 
     return B_.contiguous();
-- 
2.43.0


From 6f7ec3d67a22ca0e7bc1769d720947ba68cd4db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:45 +0000
Subject: [PATCH 17/21] fix: keep the process group for as long as the process
 has networks that use it

Deleting any distributed network destroyed the process group, which every
other network of the process communicates through.
---
 acetn/ipeps/ipeps.py       | 7 -------
 acetn/utils/distributed.py | 3 +++
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/acetn/ipeps/ipeps.py b/acetn/ipeps/ipeps.py
index 66c5619..7e4c2d3 100644
--- a/acetn/ipeps/ipeps.py
+++ b/acetn/ipeps/ipeps.py
@@ -41,13 +41,6 @@ class Ipeps(TensorNetwork):
         super().__init__(ipeps, self.config.TN, self.dtype, self.device)
         self.site_states_initialized = ipeps is not None
 
-    def __del__(self):
-        """
-        Finalize the distributed environment upon object deletion.
-        """
-        if self.is_distributed:
-            finalize_distributed()
-
     def setup_distributed(self):
         """
         Set up distributed environment if available.
diff --git a/acetn/utils/distributed.py b/acetn/utils/distributed.py
index 8c68ddb..ded15ba 100644
--- a/acetn/utils/distributed.py
+++ b/acetn/utils/distributed.py
@@ -1,5 +1,6 @@
 import torch
 import torch.distributed as dist
+import atexit
 import os
 import builtins
 from tqdm import tqdm
@@ -57,6 +58,8 @@ def setup_process_group(rank, world_size, device):
     if world_size > 1 and not dist.is_initialized():
         backend = "nccl" if torch.cuda.is_available() else "gloo"
         dist.init_process_group(backend=backend, rank=rank, world_size=world_size)
+        # shared by every network of the process, so it has to outlive each of them
+        atexit.register(finalize_distributed)
         assert rank == dist.get_rank()
         assert world_size == dist.get_world_size()
         if device != torch.device("cpu"):
-- 
2.43.0


From 6b35241a9f8079d59efee725978c6b6bcebfc04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:19 +0000
Subject: [PATCH 18/21] fix: all workers of a distributed calculation start
 from the same noise

The workers draw different numbers of random numbers while they renormalise,
so that a network created or initialised afterwards differed between them.
---
 acetn/ipeps/ipeps.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/acetn/ipeps/ipeps.py b/acetn/ipeps/ipeps.py
index 7e4c2d3..3993fa4 100644
--- a/acetn/ipeps/ipeps.py
+++ b/acetn/ipeps/ipeps.py
@@ -1,4 +1,5 @@
 import torch
+import torch.distributed as dist
 from tqdm import tqdm
 from .ipeps_config import IpepsConfig
 from .tensor_network import TensorNetwork
@@ -49,6 +50,19 @@ class Ipeps(TensorNetwork):
         self.rank, self.world_size, self.device, self.is_distributed \
             = setup_distributed(self.device)
 
+    def initialize_site_tensors(self, site_state_map):
+        """
+        Initialize the site tensors, with the same noise on all workers.
+
+        Args:
+            site_state_map (callable): Map from a site to its initial state.
+        """
+        super().initialize_site_tensors(site_state_map)
+        if self.is_distributed:
+            for site in self.site_list:
+                for tensor in [self[site]['A'], *self[site]['C'], *self[site]['E']]:
+                    dist.broadcast(tensor, src=0)
+
     def set_chi(self, chi):
         """
         Set the boundary bond dimension chi.
-- 
2.43.0


From d134890573cd68e0c79b11710f34dc9fe5134d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:37 +0000
Subject: [PATCH 19/21] fix: leave disable_progressbar as configured in
 interactive SLURM jobs

It is documented to be set automatically in non-interactive jobs only, but an
interactive job reset it.
---
 acetn/ipeps/ipeps_config.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/acetn/ipeps/ipeps_config.py b/acetn/ipeps/ipeps_config.py
index 2e7f748..a62cc1d 100644
--- a/acetn/ipeps/ipeps_config.py
+++ b/acetn/ipeps/ipeps_config.py
@@ -71,15 +71,12 @@ class IpepsConfig:
 
     def disable_pbar_if_slurm(self):
         if 'SLURM_JOB_ID' in os.environ:
-            # enable if interactive job
+            # leave as configured if interactive job
             job_name = os.getenv('SLURM_JOB_NAME', '')
             job_partition = os.getenv('SLURM_JOB_PARTITION', '')
-            if 'interactive' in job_name or job_partition == 'interactive':
-                disable_pbar = False
-            else:
-                disable_pbar = True
-            self.ctmrg.disable_progressbar = disable_pbar
-            self.evolution.disable_progressbar = disable_pbar
+            if not ('interactive' in job_name or job_partition == 'interactive'):
+                self.ctmrg.disable_progressbar = True
+                self.evolution.disable_progressbar = True
 
     def set_dtype(self, dtype):
         """Set the dtype to either the provided value or a default."""
-- 
2.43.0


From 234dd9f57b62b9048a11c32bf4458cf609011b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:04 +0000
Subject: [PATCH 20/21] fix: the default site state fits every physical
 dimension

A network with physical dimension one could not be created: the default
state had two entries.
---
 acetn/ipeps/site_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acetn/ipeps/site_tensor.py b/acetn/ipeps/site_tensor.py
index efef28f..e87a22d 100644
--- a/acetn/ipeps/site_tensor.py
+++ b/acetn/ipeps/site_tensor.py
@@ -11,7 +11,7 @@ class SiteTensor:
     _site_tensor = None
     _corner_tensors = None
     _edge_tensors = None
-    def __init__(self, dims, site_tensor=None, site_state=[1., 0.], dtype=torch.float64, device=torch.device("cpu"),):
+    def __init__(self, dims, site_tensor=None, site_state=[1.], dtype=torch.float64, device=torch.device("cpu"),):
         """
         Initializes a `SiteTensor` object.
 
@@ -22,7 +22,7 @@ class SiteTensor:
         Args:
             dims (dict): A dictionary with dimensions 'bond', 'phys', and 'chi' for bond, physical, and auxiliary dimensions.
             site_tensor (SiteTensor, optional): An existing `SiteTensor` to copy.
-            site_state (list, optional): A list specifying the initial state for the site tensor (default is [1., 0.]).
+            site_state (list, optional): A list specifying the initial state for the site tensor (default is [1.]).
             dtype (torch.dtype, optional): The data type of the tensors (default is torch.float64).
             device (torch.device, optional): The device where the tensors are placed (default is 'cpu').
         """
-- 
2.43.0


From cdbcbdb306557fc41c032c1b8a04f06824059ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:55 +0000
Subject: [PATCH 21/21] fix: product states are not conjugated when the site
 tensors are set

---
 acetn/ipeps/site_tensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acetn/ipeps/site_tensor.py b/acetn/ipeps/site_tensor.py
index e87a22d..be162ce 100644
--- a/acetn/ipeps/site_tensor.py
+++ b/acetn/ipeps/site_tensor.py
@@ -132,7 +132,8 @@ class SiteTensor:
         pD = self.dims['phys']
         self['A'] = noise*torch.rand(bD,bD,bD,bD,pD).to(dtype=self.dtype, device=self.device)
         for n in range(len(site_state)):
-            self['A'][0,0,0,0,n] += site_state[n]
+            # gates and measurements take the site tensors to hold the conjugated amplitudes
+            self['A'][0,0,0,0,n] += torch.as_tensor(site_state[n], dtype=self.dtype).conj()
         self['A'] = self['A']/self['A'].norm()
 
     def bond_permute(self, k):
-- 
2.43.0

