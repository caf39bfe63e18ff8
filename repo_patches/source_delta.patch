From 22aee56bc1f2229d579d4fb574aab83e51078c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:02 +0000
Subject: [PATCH 01/54] fix: translate DEPOLARIZE to a valid Stim instruction

The Stim backend appended the non-existent instruction 'DEPOLARIZE', so every
circuit using the documented gate failed with an IndexError.
---
 src/plaquette/device/_stimsim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/plaquette/device/_stimsim.py b/src/plaquette/device/_stimsim.py
index 146a6b2..44d772f 100644
--- a/src/plaquette/device/_stimsim.py
+++ b/src/plaquette/device/_stimsim.py
@@ -55,7 +55,8 @@ def circuit_to_stim(circ: circuit.Circuit) -> tuple[stim.Circuit, list[bool]]:
                 res.append(name, args)
                 meas_is_erasure.extend([False] * len(args))
             case "DEPOLARIZE":
-                res.append(name, args, 1.0)
+                # X, Y or Z with equal probability (never identity).
+                res.append("PAULI_CHANNEL_1", args, (1 / 3, 1 / 3, 1 / 3))
             case "E_PAULI":
                 assert len(args) == 4
                 res.append("PAULI_CHANNEL_1", args[3], args[:3])
-- 
2.43.0


From de1500949a12e93870e6f8386390e0d27f19b4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 02/54] fix: keep the device backend when the same
 CircuitBuilder is run again

---
 src/plaquette/device/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/plaquette/device/__init__.py b/src/plaquette/device/__init__.py
index d99abf0..c3b4016 100644
--- a/src/plaquette/device/__init__.py
+++ b/src/plaquette/device/__init__.py
@@ -407,7 +407,10 @@ class Device:
         # backend is None in the case of a local simulator, but now we
         # can actually create one, since we have a circuit
         if self._backend_name in local_simulators:
-            if self._backend is None or self.circuit is not circuit:
+            # Simulators keep the circuit itself, not the builder containing it
+            is_builder = isinstance(circuit, plaq_circuit.CircuitBuilder)
+            circ = circuit.circ if is_builder else circuit
+            if self._backend is None or self.circuit is not circ:
                 self._backend = self._backend_class(
                     circuit, *self._args, **self._kwargs
                 )
-- 
2.43.0


From 201fa1e936851d0830a492810d213aa27bf37bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:05 +0000
Subject: [PATCH 03/54] fix: recompile the Stim circuit when the circuit was
 modified

---
 src/plaquette/device/_stimsim.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/plaquette/device/_stimsim.py b/src/plaquette/device/_stimsim.py
index 44d772f..2a6b207 100644
--- a/src/plaquette/device/_stimsim.py
+++ b/src/plaquette/device/_stimsim.py
@@ -146,10 +146,6 @@ class StimSimulator(device.AbstractSimulator):
                 "Only a Circuit or a CircuitBuilder can be used in a simulator"
             )
         self.batch_size = batch_size
-        # Convert the circuit to Stim format. A sampler is not built until an RNG
-        # is supplied.
-        self.stim_circ, is_erasure = circuit_to_stim(self.circ)
-        self.meas_is_erasure = np.array(is_erasure)
         if stim_seed is None:
             self.stim_seed = plaquette.rng.integers(0, 2**63)
         else:
@@ -165,6 +161,10 @@ class StimSimulator(device.AbstractSimulator):
         """
         if new_seed is not None:
             self.stim_seed = new_seed
+        # Convert the circuit to Stim format and remember which gates were converted.
+        self._gates = list(self.circ.gates)
+        self.stim_circ, is_erasure = circuit_to_stim(self.circ)
+        self.meas_is_erasure = np.array(is_erasure, dtype=bool)
         self.stim_sampler = self.stim_circ.compile_sampler(seed=self.stim_seed)
         # Erase current batch (if any)
         self.batch = None
@@ -174,6 +174,9 @@ class StimSimulator(device.AbstractSimulator):
         # Sample a new match if necessary.
         if not after_reset:
             raise ValueError("Stim does not allow sampling without resetting")
+        if self._gates != self.circ.gates:
+            # The circuit was modified since it was converted to Stim format.
+            self.reset()
         if self.batch_remaining == 0:
             self.batch = self.stim_sampler.sample(shots=self.batch_size)
             self.batch_remaining = self.batch_size
-- 
2.43.0


From f5abbe7096d02b93a059526a7fb7b4a3420a3a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:34 +0000
Subject: [PATCH 04/54] fix: compare codes with different numbers of operators
 or qubits

---
 src/plaquette/codes/__init__.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/plaquette/codes/__init__.py b/src/plaquette/codes/__init__.py
index 79dcbf0..498edec 100644
--- a/src/plaquette/codes/__init__.py
+++ b/src/plaquette/codes/__init__.py
@@ -113,18 +113,12 @@ class StabilizerCode:
         """
         if not isinstance(other, StabilizerCode):
             return NotImplemented
-        return bool(  # mypy complains otherwise
-            np.all(
-                [
-                    (s1 == s2).all()
-                    for s1, s2 in zip(self.stabilisers, other.stabilisers)
-                ]
-            )
-            and np.all(
-                [
-                    (l1 == l2).all()
-                    for l1, l2 in zip(self.logical_ops, other.logical_ops)
-                ]
+        return all(
+            len(ops1) == len(ops2)
+            and all(np.array_equal(op1, op2) for op1, op2 in zip(ops1, ops2))
+            for ops1, ops2 in (
+                (self.stabilisers, other.stabilisers),
+                (self.logical_ops, other.logical_ops),
             )
         )
 
-- 
2.43.0


From 45bcb09a44faffac3c8d922fb785c5c013e7721c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:34 +0000
Subject: [PATCH 05/54] fix: check the rank of the check matrix when asked to

---
 src/plaquette/codes/__init__.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/plaquette/codes/__init__.py b/src/plaquette/codes/__init__.py
index 498edec..5f3a95b 100644
--- a/src/plaquette/codes/__init__.py
+++ b/src/plaquette/codes/__init__.py
@@ -194,11 +194,23 @@ class StabilizerCode:
         assert np.all(
             commutator_sign(self.stabilisers, self.stabilisers) == 0
         ), "Stabilizer generators do not commute with themselves"
-        # if rank:
-        #     assert (
-        #         self.stabilisers.check_matrix_rank()
-        #         == self.n_data_qubits - self.n_logical_qubits
-        #     ), "Rank of the check matrix is incorrect"
+        if rank:
+            # Gaussian elimination over GF(2)
+            check_matrix = np.array(self.stabilisers)[:, :-1] % 2
+            n_independent = 0
+            for column in range(check_matrix.shape[1]):
+                rows = np.flatnonzero(check_matrix[n_independent:, column])
+                if len(rows) == 0:
+                    continue
+                pivot, *others = rows + n_independent
+                check_matrix[others] ^= check_matrix[pivot]
+                check_matrix[[n_independent, pivot]] = check_matrix[
+                    [pivot, n_independent]
+                ]
+                n_independent += 1
+            assert (
+                n_independent == self.n_data_qubits - self.n_logical_qubits
+            ), "Rank of the check matrix is incorrect"
 
     def logical_ops_to_indices(self, logical_ops: str | Sequence[int]) -> Sequence[int]:
         """Convert specification of logical operators to index sequence.
-- 
2.43.0


From 2ffa6e52db0ad6211a6a9fc2f40698321047d201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:09 +0000
Subject: [PATCH 06/54] fix: allow more operators than data qubits in codes
 defined by operators

---
 src/plaquette/codes/latticebase.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/plaquette/codes/latticebase.py b/src/plaquette/codes/latticebase.py
index 1aa9182..210a507 100644
--- a/src/plaquette/codes/latticebase.py
+++ b/src/plaquette/codes/latticebase.py
@@ -931,7 +931,10 @@ class CodeLatticeFromStab(CodeLattice):
             if def_logical_ops is None:
                 raise TypeError("def_logical_ops is required")
             self.def_logical_ops = def_logical_ops
-        super().__init__((self.n_data_qubits, 3))
+        n_rows = max(
+            self.n_data_qubits, len(self.def_stabgens), len(self.def_logical_ops)
+        )
+        super().__init__((n_rows, 3))
         for i in range(self.n_data_qubits):
             self.add_data((i, 1))
         for i, stab in enumerate(self.def_stabgens):
-- 
2.43.0


From 6f76a2ec1746923a9bcd52d1e69fced860f78078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:27 +0000
Subject: [PATCH 07/54] fix: update the operators of a code after fabrication
 errors

---
 src/plaquette/codes/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/plaquette/codes/__init__.py b/src/plaquette/codes/__init__.py
index 5f3a95b..2337647 100644
--- a/src/plaquette/codes/__init__.py
+++ b/src/plaquette/codes/__init__.py
@@ -296,6 +296,11 @@ class LatticeCode(StabilizerCode):
         """
         self.lattice._fabrication_error_warning(stacklevel=3)
         self.lattice.apply_fabrication_errors(**params)
+        # The operators were taken from the lattice before it was changed
+        self.stabilisers = self.lattice.stabilisers
+        self.logical_ops = self.lattice.logical_operators
+        self.logical_x = self.logical_ops[::2]
+        self.logical_z = self.logical_ops[1::2]
 
     @classmethod
     def from_operators(
-- 
2.43.0


From 08fc66cce38d1669c35c4164c5574c07d0111676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:11 +0000
Subject: [PATCH 08/54] fix: keep the measured logical operators in the
 prepared state

Measuring logical operators qubit by qubit left the data qubits of X factors in
the measurement basis, so that the initial and final values of logical X
operators were unrelated even without errors.
---
 src/plaquette/circuit/generator.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/plaquette/circuit/generator.py b/src/plaquette/circuit/generator.py
index 60cf239..44a1a07 100644
--- a/src/plaquette/circuit/generator.py
+++ b/src/plaquette/circuit/generator.py
@@ -247,10 +247,14 @@ class QECCircuitGenerator:
                 :meth:`plaquette.codes.StabilizerCode.logical_ops_to_indices` for
                 details.
         """
+        previous_op: Optional[lattice.OpVertex] = None
         for i in logop_indices:
             op = self.lat.logical_ops[i]
 
             if not self.logical_ancilla:
+                if previous_op is not None:
+                    self.undo_basis_change(previous_op)
+                previous_op = op
                 for edge in op.edges:
                     dataqubit = edge.data.equbit_idx
                     match edge.factor:
@@ -265,6 +269,21 @@ class QECCircuitGenerator:
             else:
                 self.measure_op(op, with_errors=False)
 
+    def undo_basis_change(self, op: lattice.OpVertex):
+        """Undo the basis change made to measure a logical operator qubit by qubit.
+
+        Without it, the data qubits of the operator are left in the eigenstates of Z
+        instead of those of the measured Pauli operators.
+
+        Args:
+            op: operator object that was measured
+        """
+        for edge in op.edges:
+            if edge.factor == lattice.Pauli.X:
+                self.apply_gate_and_error(
+                    "H", edge.data.equbit_idx, None, with_errors=False
+                )
+
     def measure_stabgens(self, with_errors: bool):
         """Measure all stabilizer generators sequentially or in parallel.
 
@@ -356,6 +375,9 @@ class QECCircuitGenerator:
             raise ValueError("Some measured logical operators do not commute")
         # Measure logical operators for state preparation
         self.measure_logical_ops(logop_indices)
+        if not self.logical_ancilla:
+            for i in logop_indices[-1:]:
+                self.undo_basis_change(self.lat.logical_ops[i])
         # Measure stabilizer generators for state preparation (without errors)
         self.measure_stabgens(with_errors=False)
         for _ in range(self.code.n_rounds - 1):
-- 
2.43.0


From 00f0a66cd09cfcdcea4d57d954c68a9c5cdf8935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:10 +0000
Subject: [PATCH 09/54] fix: unpack results of logical operators of different
 weights

The weight of the first logical operator was assumed for all of them, so that e.g.
the results for logical Z of the repetition code could not be unpacked.
---
 src/plaquette/device/__init__.py   | 39 ++++++++++++++++++------------
 src/plaquette/frontend/__init__.py |  5 +++-
 2 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/plaquette/device/__init__.py b/src/plaquette/device/__init__.py
index c3b4016..dc04711 100644
--- a/src/plaquette/device/__init__.py
+++ b/src/plaquette/device/__init__.py
@@ -219,6 +219,7 @@ class MeasurementSample:
         raw_results: np.ndarray,
         erasure: Optional[np.ndarray] = None,
         logical_ancilla: bool = False,
+        logical_ops: Optional[str | Sequence[int]] = None,
     ):
         """Unpack the results from a simulator into a more convenient format.
 
@@ -231,31 +232,37 @@ class MeasurementSample:
                 :meth:`AbstractSimulator.get_sample`.
             logical_ancilla: flag for alternative method to measure logical operators
                 via additional ancilla that is entangled with several physical qubits
+            logical_ops: the logical operators that were measured. If not given, they
+                are assumed to have equally many results each.
         """
         if not logical_ancilla:
             # Default behavior
-            code_distance = count_qubits(code.logical_ops, include_identities=False)[0]
-
+            # Each measured operator has one result for each of its qubits
+            n_log = code.n_logical_qubits
+            if logical_ops is None:
+                n_results = len(raw_results) - (code.n_rounds + 1) * code.n_stabgens
+                weights = [n_results // (2 * n_log)] * n_log
+            else:
+                n_qubits = count_qubits(code.logical_ops, include_identities=False)
+                weights = [
+                    n_qubits[i] for i in code.logical_ops_to_indices(logical_ops)
+                ]
+            n_initial = sum(weights)
+            splits = np.cumsum(weights)[:-1]
             logical_op_initial = np.array(
-                [
-                    np.sum(raw_results[i * code_distance : (i + 1) * code_distance]) % 2
-                    for i in range(code.n_logical_qubits)
-                ],
+                [np.sum(r) % 2 for r in np.split(raw_results[:n_initial], splits)],
                 dtype=int,
             )
-            # fmt: off
             logical_op_final = np.array(
                 [
-                    np.sum(
-                        raw_results[len(raw_results) - (i * code_distance)
-                            - code_distance : len(raw_results) - (i * code_distance)]  # noqa
-                    ) % 2 for i in range(code.n_logical_qubits)
-                ][::-1], dtype=int,
-            )
-            ancillas = np.array(
-                raw_results[code.n_logical_qubits * code_distance : -code.n_logical_qubits * code_distance] # noqa
+                    np.sum(r) % 2
+                    for r in np.split(
+                        raw_results[len(raw_results) - n_initial :], splits
+                    )
+                ],
+                dtype=int,
             )
-            # fmt: on
+            ancillas = np.array(raw_results[n_initial : len(raw_results) - n_initial])
         else:
             # Alternative behavior
             logical_op_initial = np.array(raw_results[: code.n_logical_qubits])
diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index f1b80f8..5f74f1c 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -2262,7 +2262,10 @@ class ExperimentConfig:
                         self._device.run(cast(Circuit, self._circuit))
                         raw, erasure = self._device.get_sample()
                         results = MeasurementSample.from_code_and_raw_results(
-                            self._code, raw, erasure
+                            self._code,
+                            raw,
+                            erasure,
+                            logical_ops=self.general_conf["logical_op"],
                         )
                         correction = self._decoder.decode(
                             results.erased_qubits, results.syndrome
-- 
2.43.0


From 201d47a1bc8505afc57d0b3ee5f3c5ca7f37e340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:25 +0000
Subject: [PATCH 10/54] fix: measure all edges of stabilizers joined after
 fabrication errors

Edges of joined stabilizers have no time step, so that the parallel schedule left
them out of the circuit.
---
 src/plaquette/circuit/generator.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/plaquette/circuit/generator.py b/src/plaquette/circuit/generator.py
index 44a1a07..5d5b91c 100644
--- a/src/plaquette/circuit/generator.py
+++ b/src/plaquette/circuit/generator.py
@@ -293,7 +293,13 @@ class QECCircuitGenerator:
                 verification are currently performed without errors.)
         """
         time_steps = self.lat.n_time_steps
-        if isinstance(time_steps, int):
+        # Edges added e.g. while joining stabilizers have no time step
+        scheduled = all(
+            edge.measurement_time_step is not None
+            for op in self.lat.stabgens
+            for edge in op.edges
+        )
+        if isinstance(time_steps, int) and scheduled:
             self.measure_stabgens_pl(with_errors=with_errors)
         else:
             self.measure_stabgens_seq(with_errors=with_errors)
-- 
2.43.0


From 4e831ffff8962ab6474cd6468b738edd61708c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:39 +0000
Subject: [PATCH 11/54] fix: decoders from user-supplied weights or without any
 error data

---
 src/plaquette/decoders/decoderbase.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/plaquette/decoders/decoderbase.py b/src/plaquette/decoders/decoderbase.py
index 2e3b8e8..36bf5e8 100644
--- a/src/plaquette/decoders/decoderbase.py
+++ b/src/plaquette/decoders/decoderbase.py
@@ -373,13 +373,6 @@ class DecoderInterface:
                                 errordata["pauli"][q][k] = 1e-15  # type: ignore
                     if erasures and not errordata["erasure"].get(q):
                         errordata["erasure"][q] = {"p": 0}
-        else:
-            errordata: ErrorDataDict = {  # type: ignore[no-redef]
-                "pauli": {
-                    q: _default_pauli_errors
-                    for q in range(len(code.lattice.dataqubits))
-                }
-            }
 
         synmgr = syngraph.SyndromeGraphManager(
             code, errordata, weighted=weighted, weights=weights
-- 
2.43.0


From d7c9e11a035482353e91a8f57eab767f24d7d3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:10 +0000
Subject: [PATCH 12/54] fix: keep syndrome graph edges of errors that occur
 with certainty

---
 src/plaquette/syngraph/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/syngraph/__init__.py b/src/plaquette/syngraph/__init__.py
index e6d55f2..27a3e94 100644
--- a/src/plaquette/syngraph/__init__.py
+++ b/src/plaquette/syngraph/__init__.py
@@ -751,7 +751,7 @@ class SyndromeGraph:
            This method does not enable any edges.
         """
         for edge in self.edges:
-            if np.isinf(edge.weight):
+            if np.isposinf(edge.weight):
                 edge.disable()
 
     def _check_edges_duplicate(self) -> None:
-- 
2.43.0


From c1d20e93d9c0c89ae9a67d0ab0abbc9d5ea9c5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:04 +0000
Subject: [PATCH 13/54] fix: do not round Fusion Blossom weights down to zero

---
 src/plaquette/decoders/fusionblossom.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/plaquette/decoders/fusionblossom.py b/src/plaquette/decoders/fusionblossom.py
index 7dad6b4..6dba530 100644
--- a/src/plaquette/decoders/fusionblossom.py
+++ b/src/plaquette/decoders/fusionblossom.py
@@ -46,6 +46,9 @@ class FusionBlossomDecoder(decoderbase.DecoderBackendInterface):
             weights = (
                 100 * self.sgraph.edge_weights / self.sgraph.edge_weights.max()
             ).astype(int)
+            # Weights far below the maximum must not be rounded down to zero because
+            # Fusion Blossom may hang or panic on edges of zero weight.
+            weights = np.maximum(weights, 1)
         else:
             weights = np.ones(len(self.sgraph.edges)).astype(int)
         n_vertices = self.sgraph.n_vertices
-- 
2.43.0


From 2bd95417bc9a91d7f84e1aebbb0b3c4a397af829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:34 +0000
Subject: [PATCH 14/54] fix: clear the Fusion Blossom solver also after a
 failed run

---
 src/plaquette/decoders/fusionblossom.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/plaquette/decoders/fusionblossom.py b/src/plaquette/decoders/fusionblossom.py
index 6dba530..2339ee4 100644
--- a/src/plaquette/decoders/fusionblossom.py
+++ b/src/plaquette/decoders/fusionblossom.py
@@ -97,8 +97,11 @@ class FusionBlossomDecoder(decoderbase.DecoderBackendInterface):
         assert self.sgraph is not None
         assert self.solver is not None
         syndrome_pattern = self.get_syndrome_pattern()
-        self.solver.solve(syndrome_pattern)
-        result = self.solver.subgraph(None)
+        try:
+            self.solver.solve(syndrome_pattern)
+            result = self.solver.subgraph(None)
+        finally:
+            # A failed run must not disturb later ones.
+            self.solver.clear()
         result = np.array([(i in result) for i in range(len(self.sgraph.edges))])
-        self.solver.clear()
         self.sgraph.set_edge_decoder_results(result)
-- 
2.43.0


From 4673f92d737f3c273bd2440d1fa406344e44fdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:08 +0000
Subject: [PATCH 15/54] fix: check updated weights of union find decoders, and
 allow none

---
 src/plaquette/decoders/unionfind_interfaces.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/plaquette/decoders/unionfind_interfaces.py b/src/plaquette/decoders/unionfind_interfaces.py
index 9b1e7a6..cfd45b6 100644
--- a/src/plaquette/decoders/unionfind_interfaces.py
+++ b/src/plaquette/decoders/unionfind_interfaces.py
@@ -47,12 +47,7 @@ class UnionFindBase(decoderbase.DecoderBackendInterface, metaclass=abc.ABCMeta):
         self.sgraph = sgraph
         graph = erasure_dec.Graph(self.sgraph.n_vertices, self.sgraph.edges)
         self.decoder = self._get_union_find(graph)
-        if self.sgraph.is_weighted(support_mixed=False):
-            weights = self.sgraph.edge_weights
-            decoderbase.check_weights_sane(weights)
-        else:
-            weights = None
-        self.decoder.set_weights(weights)
+        self.update_weights()
 
     def update_weights(self):
         """Update weights.
@@ -64,7 +59,12 @@ class UnionFindBase(decoderbase.DecoderBackendInterface, metaclass=abc.ABCMeta):
         """
         assert self.sgraph is not None
         assert self.decoder is not None
-        self.decoder.set_weights(self.sgraph.edge_weights)
+        if self.sgraph.is_weighted(support_mixed=False):
+            weights = self.sgraph.edge_weights
+            decoderbase.check_weights_sane(weights)
+        else:
+            weights = None
+        self.decoder.set_weights(weights)
 
     def decode(self):
         """Decode erasure and syndrome."""
-- 
2.43.0


From a1ef2610c66c2ce7c8a4db20caa717dac19d427d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 16/54] fix: keep the erasure of qubits whose edge is disabled
 as a duplicate

---
 src/plaquette/syngraph/__init__.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/syngraph/__init__.py b/src/plaquette/syngraph/__init__.py
index 27a3e94..34c414e 100644
--- a/src/plaquette/syngraph/__init__.py
+++ b/src/plaquette/syngraph/__init__.py
@@ -912,11 +912,21 @@ class SyndromeGraph:
             qubit_erased = qubit_erased.astype(bool)
         assert qubit_erased.dtype == bool
         assert qubit_erased.shape == (self.n_rounds, self.n_qubits)
-        edge_erased = np.zeros([len(self.edges)], dtype=bool)
+        erased_vertices = set()
         for edge in self.edges:
             if isinstance(edge, QubitErrorEdge):
                 edge.set_erased(qubit_erased[edge.time_step, edge.qubit_idx])
-                edge_erased[edge.edge_idx] = edge.erased
+                if edge.erased:
+                    erased_vertices.add(frozenset(v.vertex_idx for v in edge.vertices))
+        # Of several duplicate edges, only one is enabled. For the decoder, it is
+        # erased if any of them is.
+        edge_erased = np.array(
+            [
+                frozenset(v.vertex_idx for v in edge.vertices) in erased_vertices
+                for edge in self.edges
+            ],
+            dtype=bool,
+        )
         for comp in self.components_with_edges:
             comp.set_erasure(edge_erased[comp.parent_edge_idx])
 
-- 
2.43.0


From 4308c427fd9146d1999fbba9192a60ea8a087656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 17/54] fix: update error data from data frames, enabling the
 updated errors

---
 src/plaquette/errors/__init__.py | 44 ++++++++++++--------------------
 1 file changed, 17 insertions(+), 27 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index a6e09b1..818c3c4 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -747,18 +747,19 @@ class ErrorData:  # noqa: D101
                 If ``False``, just updates overlapping locations in the dataframe.
                 and missing locations are appended to the dataframe
         """
-        if qubit_errors:
-            if overwrite:
-                self.qubit_errors = qubit_errors
-            else:
-                qubit_errors.set_index(["qubit_id"], drop=True, inplace=True)
-                for col in qubit_errors.colums:
-                    if col not in self.qubit_errors.columns:
-                        self.qubit_errors[col] = None
-                    self.qubit_errors.update(qubit_errors.loc[:, col])
-
-            self.enabled_qubit_errors = set(self.qubit_errors.columns[2:])
-        if gate_errors:
+        if qubit_errors is not None:
+            qubit_errors = qubit_errors.set_index(["qubit_id"], drop=False)
+            if not overwrite and not self.qubit_errors.empty:
+                columns = self.qubit_errors.columns.union(
+                    qubit_errors.columns, sort=False
+                )
+                qubit_errors = qubit_errors.combine_first(self.qubit_errors)
+                qubit_errors = qubit_errors[columns].astype({"qubit_id": int})
+            self.qubit_errors = qubit_errors
+            self.enabled_qubit_errors = set(qubit_errors.columns).difference(
+                {"qubit_id", "qubit_type"}
+            )
+        if gate_errors is not None:
             if overwrite:
                 self.gate_errors = gate_errors
             else:
@@ -784,29 +785,18 @@ class ErrorData:  # noqa: D101
         Returns:
             None, updates in-place.
         """
+        qubit_errors: pd.DataFrame | None = None
         if qubit_error_csv:
             qubit_errors = pd.read_csv(qubit_error_csv)
-            if overwrite:
-                self.qubit_errors = qubit_errors
-            else:
-                qubit_errors.set_index(["qubit_id"], drop=True, inplace=True)
-                for col in qubit_errors.columns:
-                    if col not in self.qubit_errors.columns:
-                        self.qubit_errors[col] = None
-                    self.qubit_errors.update(qubit_errors.loc[:, col])
 
+        gate_errors: pd.DataFrame | None = None
         if gate_error_csv:
             gate_errors = pd.read_csv(gate_error_csv)
             exp_types = ("int", "str", "float")
             for key, et in zip(gate_errors.keys()[1:], exp_types):
                 gate_errors[key] = delimited_string_list_to_series(gate_errors[key], et)
-            if overwrite:
-                self.gate_errors = gate_errors
-            else:
-                self.gate_errors = pd.concat(
-                    [self.gate_errors, gate_errors], ignore_index=True
-                )
-            self.enabled_gate_errors = set(self.gate_errors.gate.unique())
+
+        self.update(qubit_errors, gate_errors, overwrite)
 
     @property
     def error_data_dict(self) -> ErrorDataDict:
-- 
2.43.0


From 8d1e41a1743c22d7bddc3baad77c325900b2ab82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:21 +0000
Subject: [PATCH 18/54] fix: ignore missing values of qubit errors

---
 src/plaquette/errors/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index 818c3c4..d649959 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -869,7 +869,8 @@ class ErrorData:  # noqa: D101
                             if self.qubit_errors["qubit_type"][idx] == "data"
                         }
                     for k, v in qubit_errors["pauli"].items():
-                        v[f"{e.casefold()}"] = self.qubit_errors[e][k]  # type: ignore
+                        if pd.notna(p := self.qubit_errors[e][k]):
+                            v[f"{e.casefold()}"] = p  # type: ignore
 
                 case "erasure":
                     if qubit_errors.get("erasure") is None:
@@ -880,7 +881,8 @@ class ErrorData:  # noqa: D101
                         }
 
                     for key, val in qubit_errors["erasure"].items():
-                        val["p"] = self.qubit_errors[e][key]
+                        if pd.notna(p := self.qubit_errors[e][key]):
+                            val["p"] = p
 
                 case "measurement":
                     if qubit_errors.get("measurement") is None:
@@ -893,7 +895,8 @@ class ErrorData:  # noqa: D101
                             }
                         )
                     for key, val in qubit_errors["measurement"].items():
-                        val["p"] = self.qubit_errors[e][key]
+                        if pd.notna(p := self.qubit_errors[e][key]):
+                            val["p"] = p
 
                 case "fabrication":
                     pass
-- 
2.43.0


From 6b1175c6056e6890b60c3f2411be8e25a8cc3cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:42 +0000
Subject: [PATCH 19/54] fix: convert single two-qubit channels of gaussian gate
 errors

---
 src/plaquette/errors/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index d649959..2248883 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -930,7 +930,10 @@ class ErrorData:  # noqa: D101
                     case "CX" | "CZ":
                         if gate_errors_dict.get(row.gate) is None:
                             gate_errors_dict[row.gate] = {}
-                        if not set(single_paulis).isdisjoint(set(row.induced_errors)):
+                        induced_errors = row.induced_errors
+                        if isinstance(induced_errors, str):  # only one channel
+                            induced_errors = [induced_errors]
+                        if not set(single_paulis).isdisjoint(set(induced_errors)):
                             raise KeyError("Two qubit channels must be provided!")
                         for i in range(0, len(row.on_qubits), 2):
                             gate_errors_dict[row.gate][
@@ -938,7 +941,7 @@ class ErrorData:  # noqa: D101
                             ] = TwoPauliChannelErrorValueDict(  # type: ignore
                                 {
                                     str(k).lower(): v
-                                    for k, v in zip(row.induced_errors, row.probs)
+                                    for k, v in zip(induced_errors, row.probs)
                                 }
                             )
 
-- 
2.43.0


From c1289893f9b94a8361ac3836d96a52ad0bf48a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 20/54] fix: draw gaussian errors of configurations as
 probabilities, from plaquette.rng

---
 src/plaquette/errors/__init__.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index 2248883..c09d95c 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -228,6 +228,8 @@ def generate_gaussian_errors(
         raise ValueError(
             f"Invalid std deviation={std_dev}. Must be between 0.0 and 1.0"
         )
+    if std_dev == 0.0:
+        return generate_constant_errors(mean, qubit_list)
 
     distribution = truncnorm(
         (0.0 - mean) / std_dev, (1.0 - mean) / std_dev, mean, std_dev
@@ -1191,10 +1193,8 @@ def assimilate_qubit_errors(
                     qubit_pd.shape[0], qubit_error_config[0][label][1]
                 )
             case "gaussian":
-                qubit_pd[label] = np.random.default_rng().normal(
-                    loc=qubit_error_config[0][label][1],
-                    scale=qubit_error_config[0][label][2],
-                    size=qubit_pd.shape[0],
+                qubit_pd[label] = generate_gaussian_errors(
+                    *qubit_error_config[0][label][1:], qubit_pd["qubit_id"]
                 )
             case "user":
                 if qubit_csv_df.empty:
@@ -1257,10 +1257,8 @@ def assimilate_gate_errors(
                             )
 
                         elif params[0] == "gaussian":
-                            probs = np.random.default_rng().normal(
-                                loc=params[2],
-                                scale=params[3],
-                                size=len(lattice.stabgens),
+                            probs = generate_gaussian_errors(
+                                params[2], params[3], lattice.stabgens
                             )
                             for i, p in zip(lattice.stabgens, probs):
                                 gate_pd = pd.concat(
@@ -1308,10 +1306,8 @@ def assimilate_gate_errors(
                             )
 
                         elif params[0] == "gaussian":
-                            probs = np.random.default_rng().normal(
-                                loc=params[2],
-                                scale=params[3],
-                                size=len(on_qubits) // 2,
+                            probs = generate_gaussian_errors(
+                                params[2], params[3], on_qubits[::2]
                             )
 
                             for ind, p in enumerate(probs):
-- 
2.43.0


From bed035c54fc517b8b0985a0679cad79ac3126b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:36 +0000
Subject: [PATCH 21/54] fix: save errors in the format of the CSV files that
 are loaded

---
 src/plaquette/errors/__init__.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index c09d95c..826c7ca 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -443,7 +443,7 @@ class ErrorData:  # noqa: D101
 
         gate_errors: pd.DataFrame = pd.DataFrame()
         if gate_error_csv:
-            gate_errors = pd.read_csv(gate_error_csv)
+            gate_errors = pd.read_csv(gate_error_csv, dtype=str)
             exp_types = ("int", "str", "float")
             for key, et in zip(gate_errors.keys()[1:], exp_types):
                 gate_errors[key] = delimited_string_list_to_series(gate_errors[key], et)
@@ -793,7 +793,7 @@ class ErrorData:  # noqa: D101
 
         gate_errors: pd.DataFrame | None = None
         if gate_error_csv:
-            gate_errors = pd.read_csv(gate_error_csv)
+            gate_errors = pd.read_csv(gate_error_csv, dtype=str)
             exp_types = ("int", "str", "float")
             for key, et in zip(gate_errors.keys()[1:], exp_types):
                 gate_errors[key] = delimited_string_list_to_series(gate_errors[key], et)
@@ -853,8 +853,20 @@ class ErrorData:  # noqa: D101
             qubit_error_path = "./qubit_error.csv"
         if gate_error_path is None:
             gate_error_path = "./gate_error.csv"
-        self.qubit_errors.to_csv(qubit_error_path)
-        self.gate_errors.to_csv(gate_error_path)
+        if self.qubit_errors.empty:
+            qubit_errors = pd.DataFrame(columns=["qubit_id", "qubit_type"])
+        else:
+            qubit_errors = self.qubit_errors
+        qubit_errors.to_csv(qubit_error_path, index=False)
+
+        columns = ["gate", "on_qubits", "induced_errors", "probs"]
+        gate_errors = self.gate_errors.reindex(columns=columns)
+        for key in columns[1:]:
+            gate_errors[key] = [
+                values if isinstance(values, str) else "|".join(map(str, values))
+                for values in gate_errors[key]
+            ]
+        gate_errors.to_csv(gate_error_path, index=False)
 
     @property
     def qubit_errors_dict(self) -> QubitErrorsDict:
@@ -1222,7 +1234,7 @@ def assimilate_gate_errors(
     """
     gate_pd = pd.DataFrame(columns=["gate", "on_qubits", "induced_errors", "probs"])
     try:
-        gate_csv = pd.read_csv(gate_error_config[1])
+        gate_csv = pd.read_csv(gate_error_config[1], dtype=str)
     except FileNotFoundError:
         gate_csv = pd.DataFrame(
             columns=["gate", "on_qubits", "induced_errors", "probs"]
-- 
2.43.0


From 2bba2fa7c899af0eb7f896a2e5268567b3464a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:25 +0000
Subject: [PATCH 22/54] fix: keep the phases of products of large Pauli
 operators exact

---
 src/plaquette/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 3d45e74..28d88f2 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1449,7 +1449,7 @@ def multiply(
         # The sign information is also entirely included in ``initial_phase`` and copied
         # to the sign bit only to be used in those algorithms that require it. If we
         # don't do this, we will ignore minus-signs from ``i`` factors.
-        phase = initial_phase * 1j**phase_exponent * (1 - 2 * ans[-1])
+        phase = initial_phase * 1j ** (phase_exponent % 4) * (1 - 2 * ans[-1])
         if phase.imag != 0:
             sign_bit = 1 if phase.imag < 0 else 0
         elif phase.real != 0:
-- 
2.43.0


From 88f9f4341f87881226b0f4df5b807fe90def689b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:56 +0000
Subject: [PATCH 23/54] fix: measure operators that commute with all rows of a
 tableau

---
 src/plaquette/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 28d88f2..44af6a7 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -700,7 +700,7 @@ def measure(
     # Outcome is random if one meas_op does not commute with at least one
     # stabilizer, which appear after n_qubits. We don't care about not commuting
     # with the de-stabilisers
-    if nonzero[-1] >= number_of_qubits:
+    if nonzero.size and nonzero[-1] >= number_of_qubits:
         # Find the first non-commuting (with meas_op) stabilizer
         first_nc_stab = nonzero[nonzero >= number_of_qubits][0]
         index_pos = np.where(nonzero == first_nc_stab)[0][0]
-- 
2.43.0


From 38a4e0f25a26d528d702638b39ad69d22ec656f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 24/54] fix: destructive measurements of several qubits

---
 src/plaquette/pauli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 44af6a7..d680836 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -489,8 +489,6 @@ def _measure_base(state, base, targets, *, destructive=False, forced_outcomes=No
         be done highest-index first. The relationship target-forced outcome
         is preserved also at the output.
     """
-    n_q = count_qubits(state)[0]
-
     if isinstance(targets, int):
         targets = [targets]
 
@@ -536,7 +534,9 @@ def _measure_base(state, base, targets, *, destructive=False, forced_outcomes=No
     for sorted_idx in reversed(np.argsort(targets)):
         state, m = measure(
             state,
-            single_qubit_pauli_operator(base, targets[sorted_idx], n_q),
+            single_qubit_pauli_operator(
+                base, targets[sorted_idx], count_qubits(state)[0]
+            ),
             forced_outcome=_fo[sorted_idx],
         )
         measurement_results[sorted_idx] = m
-- 
2.43.0


From b0b4a718553ec71a8061a998c8294e318f800d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:51 +0000
Subject: [PATCH 25/54] fix: insert qubits into states

---
 src/plaquette/pauli.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index d680836..b845a22 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -408,29 +408,25 @@ def insert_qubit_at(state: Tableau, pos: int | Sequence[int]) -> Tableau:
             "you're looking for pauli.pad_operator()?"
         )
     number_of_qubits = state.shape[1] // 2
-    if isinstance(pos, int):
-        pos = np.array([pos])
+    pos = np.sort(np.atleast_1d(pos))
     if (pos > number_of_qubits).any():
         raise IndexError(
             f"Cannot insert a new qubit at position {pos} for a state with "
             f"{number_of_qubits} qubits."
         )
-    h_pos = np.concatenate((pos, np.array(pos) + number_of_qubits))
-    number_of_missing_qubits = np.max(h_pos) - number_of_qubits
-    v_pos = np.concatenate(
+    state = np.insert(state, np.concatenate((pos, pos + number_of_qubits)), 0, axis=1)
+    new_qubits = zero_state(state.shape[1] // 2)
+    # the qubits (and with them their operators) are moved by those inserted before
+    inserted = pos + np.arange(pos.size)
+    return np.concatenate(
         (
-            [number_of_qubits] * number_of_missing_qubits,
-            [2 * number_of_qubits] * number_of_missing_qubits,
+            state[:number_of_qubits],
+            new_qubits[inserted],
+            state[number_of_qubits:],
+            new_qubits[inserted + len(new_qubits) // 2],
         )
     )
 
-    state = np.insert(state, h_pos, 0, axis=1)
-    state = np.insert(state, v_pos, 0, axis=0)
-    number_of_qubits += number_of_missing_qubits
-    state[v_pos[:number_of_qubits], h_pos[:number_of_qubits]] = 1
-    state[v_pos[number_of_qubits:], h_pos[number_of_qubits:-1]] = 1
-    return state
-
 
 @typing.overload
 def _measure_base(
-- 
2.43.0


From 8857b99a687a9192943f34cfa3f77c11730a749c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:19 +0000
Subject: [PATCH 26/54] fix: accept operators in apply_operator

---
 src/plaquette/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index b845a22..63903df 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -133,7 +133,7 @@ def apply_operator(op: Tableau, state: Tableau) -> Tableau:
     if state.ndim != 2:
         raise ValueError("`state` must be a 2D numpy array")
 
-    if isinstance(op, np.ndarray):
+    if not isinstance(op, np.ndarray):
         raise TypeError("`op` must be a numpy array")
 
     if op.ndim == 1:
-- 
2.43.0


From e5ade2ba507100389319048f465c17b63fc0ac63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 27/54] fix: reset qubits to eigenstates of Y

---
 src/plaquette/pauli.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 63903df..275239d 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1253,8 +1253,6 @@ def reset_qubits_to_eigenstate(
     """
     if not isinstance(state, np.ndarray):
         raise TypeError(f"`state` must be a numpy array, not '{type(state)}'.")
-    # No Ys yet please
-    # What have thei done to iou?
     if isinstance(targets, int):
         targets = [targets]
 
@@ -1267,7 +1265,7 @@ def reset_qubits_to_eigenstate(
         if meas_outcome:
             if pauli == "Z" or pauli == "-Z":
                 state = x(state, qubit)
-            elif pauli == "X" or pauli == "-X":
+            else:
                 state = z(state, qubit)
     return state
 
-- 
2.43.0


From 12683c2a09b879a7497738fcb867b3c0103ba412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:16 +0000
Subject: [PATCH 28/54] fix: refuse malformed Pauli strings and accept
 identities

---
 src/plaquette/pauli.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 275239d..9473b29 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -345,7 +345,7 @@ def dict_to_pauli(ops: PauliDict, qubits: Optional[int] = None) -> Tableau:
             from ``ops``'s keys.
     """
     # TODO: add tests
-    max_qubit_index = max(ops.keys())
+    max_qubit_index = max(ops.keys(), default=-1)
     if qubits is None:
         qubits = max_qubit_index + 1
 
@@ -1018,6 +1018,8 @@ def string_to_pauli(op_str: str, qubits: Optional[int] = None) -> Tableau:
     # Remove visual separators
     op_str = op_str.replace(" ", "")
     op_str = op_str.replace("_", "")
+    if invalid := set(op_str).difference("+-IXYZ0123456789"):
+        raise ValueError(f"Unrecognised characters in operator: {sorted(invalid)}")
     # Check if there's a digit somewhere
     if any(map(lambda c: c.isdigit(), op_str)):
         # In that case we assume short form and bring this into canonical form
@@ -1045,7 +1047,13 @@ def string_to_pauli(op_str: str, qubits: Optional[int] = None) -> Tableau:
         operator_dict = {i: o for i, o in enumerate(op_str) if o != "I"}
         # we also need to make sure that we are not truncating identities from
         # the end in the canonical representation
-        qubits = max(qubits or 0, len(op_str))
+        if qubits is None:
+            qubits = len(op_str)
+        elif qubits < len(op_str):
+            raise ValueError(
+                f"Specified qubits ({qubits}) are less than the length of the "
+                f"operator ({len(op_str)})"
+            )
 
     binary_operator = dict_to_pauli(operator_dict, qubits)
     binary_operator[-1] = initial_phase
-- 
2.43.0


From 08cb14faa85d063eec1d0a9d344e47e057a3b31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:48 +0000
Subject: [PATCH 29/54] fix: find destabilisers of all stabiliser states

---
 src/plaquette/pauli.py | 53 +++++++++++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 13 deletions(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 9473b29..5c553cf 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1124,17 +1124,7 @@ def string_to_state(
             )
     else:
         # If no destabilisers are given, we need to calculate them
-        ident_size = count_qubits(binary_stabilisers[0])[0]
-        ident = np.eye(ident_size, dtype="u1")
-        zero = np.zeros(ident.shape, dtype="u1")
-        omega = np.block([[zero, ident], [ident, zero]])
-        binary_destabilisers = (
-            np.linalg.pinv(binary_stabilisers[:, :-1].T) @ omega
-        ).astype("u1")
-        # attach an empty column for the sign info
-        binary_destabilisers = np.hstack(
-            (binary_destabilisers, np.zeros((ident_size, 1), dtype="u1"))
-        )
+        binary_destabilisers = _find_destabilisers(binary_stabilisers)
 
     # No matter how we got the destabilisers, check things for sanity
     for i, s in enumerate(binary_stabilisers):
@@ -1156,14 +1146,51 @@ def string_to_state(
                 raise ValueError(
                     f"Destabiliser {j} does not anticommute with its stabiliser"
                 )
-            elif j > i and commutator_sign(s, d):
-                # different indices should commute instead
+            # different indices should commute instead
+            elif i != j and commutator_sign(s, d):
                 raise ValueError(
                     f"Destabiliser {j} does not commute with stabiliser {i}"
                 )
+            elif i != j and commutator_sign(
+                binary_stabilisers[j], binary_destabilisers[i]
+            ):
+                raise ValueError(
+                    f"Destabiliser {i} does not commute with stabiliser {j}"
+                )
     return np.vstack((binary_destabilisers, binary_stabilisers), dtype="u1")
 
 
+def _find_destabilisers(stabilisers: Tableau) -> Tableau:
+    """Find destabilisers which complete the given stabilisers to a tableau.
+
+    Args:
+        stabilisers: as many independent and commuting operators as there are qubits.
+
+    Raises:
+        ValueError: if there are not as many independent operators as qubits.
+    """
+    n = len(stabilisers)
+    if count_qubits(stabilisers)[0] != n:
+        raise ValueError("There must be as many stabilisers as qubits")
+    xs, zs, _ = unpack_tableau(stabilisers)
+    # Invert the commutators with all X_i and Z_i (Gauss-Jordan elimination over GF(2))
+    rows = np.hstack((zs, xs, np.eye(n, dtype="u1")))
+    pivots = []
+    for row in range(n):
+        if not rows[row, : 2 * n].any():
+            raise ValueError(f"Stabiliser {row} depends on the other stabilisers")
+        pivots.append(rows[row, : 2 * n].argmax())
+        others = np.flatnonzero(rows[:, pivots[-1]])
+        rows[others[others != row]] ^= rows[row]
+    destabilisers = np.zeros_like(stabilisers)
+    destabilisers[:, pivots] = rows[:, 2 * n :].T
+    # So far, only the commutators with stabilisers are right
+    for i, j in itertools.combinations(range(n), 2):
+        if commutator_sign(destabilisers[i], destabilisers[j]):
+            destabilisers[j, :-1] ^= stabilisers[i, :-1]
+    return destabilisers
+
+
 def tensor_product(*operators: Tableau) -> Tableau:
     """Compute the tensor product among the given operators or states.
 
-- 
2.43.0


From da37dcba26ecf32f0be7a0b79ee3fa51faee668c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:25 +0000
Subject: [PATCH 30/54] fix: refuse Pauli strings that mix canonical and short
 form

---
 src/plaquette/pauli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 5c553cf..8a30752 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1020,6 +1020,8 @@ def string_to_pauli(op_str: str, qubits: Optional[int] = None) -> Tableau:
     op_str = op_str.replace("_", "")
     if invalid := set(op_str).difference("+-IXYZ0123456789"):
         raise ValueError(f"Unrecognised characters in operator: {sorted(invalid)}")
+    if not re.fullmatch(r"[-+]?[IXYZ]*|([-+]?[IXYZ]\d+)+", op_str):
+        raise ValueError("Operator is neither in canonical nor in short form")
     # Check if there's a digit somewhere
     if any(map(lambda c: c.isdigit(), op_str)):
         # In that case we assume short form and bring this into canonical form
-- 
2.43.0


From 59d7e826fcd355480ddafb355c1fd17db864f8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:02 +0000
Subject: [PATCH 31/54] fix: reset qubits to eigenstates of +Z

---
 src/plaquette/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 8a30752..1f1a830 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1300,7 +1300,7 @@ def reset_qubits_to_eigenstate(
             state, single_qubit_pauli_operator(pauli, qubit, state_qubits)
         )
         if meas_outcome:
-            if pauli == "Z" or pauli == "-Z":
+            if pauli[-1] == "Z":
                 state = x(state, qubit)
             else:
                 state = z(state, qubit)
-- 
2.43.0


From bc619614925068814bad84190ce6dcf360fb1216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:11 +0000
Subject: [PATCH 32/54] fix: refuse code configurations without a positive size
 and rounds

---
 src/plaquette/frontend/__init__.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 5f74f1c..f64382c 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -116,18 +116,14 @@ class CodeConfig:
         if self.name not in self.VALID_CODES:
             raise ValueError(f"{self.name} is not yet supported!")
 
-        if self.name in self.VALID_CODES[4:]:
+        needs_size = self.name in self.VALID_CODES[:4]
+        if not needs_size:
             self.size = -1
-        elif (
-            (self.size < 0 or self.rounds < 0)
-            or not (isinstance(self.size, int) and isinstance(self.rounds, int))
-            and self.name in self.VALID_CODES[:4]
-        ):
-            raise ValueError(
-                "For the given code, size and round must be positive integers!"
-            )
-        else:
-            self.size = cast(int, self.size)
+        for value in (self.size, self.rounds) if needs_size else (self.rounds,):
+            if not isinstance(value, int) or value < 1:
+                raise ValueError(
+                    "For the given code, size and round must be positive integers!"
+                )
 
     @classmethod
     def from_dict(cls, config_dict: dict) -> CodeConfig:
-- 
2.43.0


From ef2e886a88eb7367336538976447b8a135b0d658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:11 +0000
Subject: [PATCH 33/54] fix: refuse inconsistent gate error configurations

---
 src/plaquette/frontend/__init__.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index f64382c..9d2c489 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -793,7 +793,7 @@ class _GateErrorMetadata:
 
     VALID_INDUCED_ERRORS: ClassVar[set[str]] = (
         set(["".join(i) for i in product("XYZI", repeat=2)])
-        .difference("II")
+        .difference({"II"})
         .union(["X", "Y", "Z"])
     )
     """
@@ -802,7 +802,11 @@ class _GateErrorMetadata:
 
     def __post_init__(self):
         if isinstance(self.distribution, str):
-            if len(self.induced_errors) != 0 and len(self.params) != 0:
+            if self.distribution not in ("user", ""):  # "": empty object
+                raise ValueError(
+                    "Only 'constant' or 'gaussian' are valid distribution"
+                )
+            if len(self.induced_errors) != 0 or len(self.params) != 0:
                 raise ValueError("Incorrect values of induced_errors or params!")
 
         elif isinstance(self.distribution, list):
@@ -810,6 +814,10 @@ class _GateErrorMetadata:
                 raise ValueError(
                     "Induced errors and params must be of the same length!"
                 )
+            if len(self.distribution) != len(self.params):
+                raise ValueError(
+                    "Distribution and params must be of the same length!"
+                )
 
             for i, dist in enumerate(self.distribution):
                 if self.induced_errors[i] not in self.VALID_INDUCED_ERRORS:
@@ -831,6 +839,8 @@ class _GateErrorMetadata:
                         raise ValueError(
                             "Only 'constant' or 'gaussian' are valid distribution"
                         )
+        else:
+            raise ValueError(f"Unknown distribution {self.distribution}")
 
     def __str__(self) -> str:
         return pformat(self)
-- 
2.43.0


From 278944571d4ce6a7fe13500061e1bde3e6df8252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:30 +0000
Subject: [PATCH 34/54] fix: validate updated configurations

---
 src/plaquette/frontend/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 9d2c489..9e5f838 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -669,6 +669,7 @@ class QubitErrorsConfig:
         for key, value in kwargs.items():
             if hasattr(self, key):
                 setattr(self, key, value)
+        self.__post_init__()
 
     def __str__(self):  # noqa: D105
         return pformat(self)
@@ -941,6 +942,7 @@ class _GateErrorMetadata:
         for key, value in kwargs.items():
             if hasattr(self, key):
                 setattr(self, key, value)
+        self.__post_init__()
 
     def is_empty(self):
         """Check if the metadata is void.
@@ -1283,6 +1285,7 @@ class GateErrorsConfig:
         for key, value in kwargs.items():
             if hasattr(self, key):
                 setattr(self, key, value)
+        self.__post_init__()
 
     @property
     def simulated_errors(self) -> tuple[dict, str] | None:
@@ -1519,6 +1522,7 @@ class CircuitConfig:
         for key, value in kwargs.items():
             if hasattr(self, key):
                 setattr(self, key, value)
+        self.__post_init__()
 
     def instantiate(
         self,
@@ -1622,6 +1626,7 @@ class DeviceConfig:
         for key, value in kwargs.items():
             if hasattr(self, key):
                 setattr(self, key, value)
+        self.__post_init__()
 
     @classmethod
     def from_dict(cls, config_dict: dict) -> DeviceConfig:
-- 
2.43.0


From 8444e6f2b441509f98c045427ab53803506b00ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:30 +0000
Subject: [PATCH 35/54] fix: keep the gate fabrication entry of a configuration

---
 src/plaquette/frontend/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 9e5f838..6edfb55 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -1182,6 +1182,7 @@ class GateErrorsConfig:
             H=cast(_GateErrorMetadata, configdata.get("H")),
             M=cast(_GateErrorMetadata, configdata.get("M")),
             R=cast(_GateErrorMetadata, configdata.get("R")),
+            fabrication=cast(_GateErrorMetadata, configdata.get("fabrication")),
         )
 
     @classmethod
-- 
2.43.0


From 5fe675dbdc4b837e7022db6840d8a724f3f9835a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:30 +0000
Subject: [PATCH 36/54] fix: do not modify dictionaries given to from_dict

---
 src/plaquette/frontend/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 6edfb55..e29c0f0 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -146,6 +146,7 @@ class CodeConfig:
             >>> print(code_conf)
             CodeConfig(name='FiveQubitCode', rounds=1, size=-1)
         """
+        config_dict = dict(config_dict)  # leave the caller's dictionary alone
         config_dict.setdefault("rounds", 1)
         config_dict.setdefault("size", -1)
 
@@ -319,6 +320,7 @@ class _QubitErrorMetadata:
             _QubitErrorMetadata(distribution='gaussian', params=[0.1, 0.04], enabled=True)
         """  # noqa : E501
 
+        metadata = dict(metadata)  # leave the caller's dictionary alone
         metadata.setdefault("enabled", True)
         metadata.setdefault("params", [])
 
@@ -556,6 +558,7 @@ class QubitErrorsConfig:
                 },
            }
         """
+        configdata = dict(configdata)  # leave the caller's dictionary alone
         if configdata.get("data_path") is not None:
             if configdata.get("load_file") is not None:
                 _validate_filepath(configdata["data_path"], configdata["load_file"])
@@ -887,6 +890,7 @@ class _GateErrorMetadata:
                                params=[],
                                enabled=True)
         """
+        metadata = dict(metadata)  # leave the caller's dictionary alone
         metadata.setdefault("enabled", True)
         metadata.setdefault("induced_errors", [])
         metadata.setdefault("params", [])
@@ -1152,6 +1156,7 @@ class GateErrorsConfig:
            }
 
         """
+        configdata = dict(configdata)  # leave the caller's dictionary alone
         if configdata.get("data_path") is not None:
             if configdata.get("load_file") is not None:
                 _validate_filepath(configdata["data_path"], configdata["load_file"])
@@ -1489,7 +1494,7 @@ class CircuitConfig:
         Returns:
             A :class:`~CircuitConfig` object.
         """
-        config_dict = cast(dict, config_dict)
+        config_dict = dict(config_dict or {})  # leave the caller's dictionary alone
         for f in fields(cls):
             match f.name:
                 case "has_errors" | "circuit_provided":
@@ -1639,6 +1644,7 @@ class DeviceConfig:
         Returns:
             A :class:`~DeviceConfig` object.
         """
+        config_dict = dict(config_dict)  # leave the caller's dictionary alone
         config_dict.setdefault("name", "clifford")
         config_dict.setdefault("shots", 1024)
         return cls(
@@ -1716,6 +1722,7 @@ class DecoderConfig:
         Args:
             config_dict: Dict containing decoder configurations.
         """
+        config_dict = dict(config_dict)  # leave the caller's dictionary alone
         config_dict.setdefault("name", "PyMatchingDecoder")
         config_dict.setdefault("weighted", False)
         return cls(
@@ -2102,6 +2109,7 @@ class ExperimentConfig:
                 'device': {'name': 'stim', 'shots': 10000}
             }
         """  # noqa
+        config_dict = dict(config_dict)  # leave the caller's dictionary alone
         config_dict.setdefault("device", {})
         config_dict.setdefault("errors", {})
         config_dict.setdefault("decoder", {})
-- 
2.43.0


From 1fd8f6987a67ddff9f5f10b5f2933465a9f6dcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:54 +0000
Subject: [PATCH 37/54] fix: use the default general configuration when none is
 given

---
 src/plaquette/frontend/__init__.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index e29c0f0..2da9766 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -1820,9 +1820,7 @@ class ExperimentConfig:
     """
 
     general_conf: GeneralConfig = field(
-        default_factory=lambda: GeneralConfig(
-            logical_op="X", qec_property=["logical_error_rate"], seed=12345
-        )
+        default_factory=lambda: ExperimentConfig._default_general()
     )
     """Generic configurations for the experiment of the :class:`~GeneralConfig`."""
 
@@ -1850,6 +1848,13 @@ class ExperimentConfig:
     _circuit: Circuit | None = None
     _decoder: Type[decoders.DecoderInterface] | None = None
 
+    @staticmethod
+    def _default_general() -> GeneralConfig:
+        """Make the general configuration used when none is given."""
+        return GeneralConfig(
+            logical_op="X", qec_property=["logical_error_rate"], seed=12345
+        )
+
     def update_rng(self):  # noqa: D102
         plaquette.rng = np.random.default_rng(seed=self.general_conf["seed"])
 
@@ -2115,8 +2120,9 @@ class ExperimentConfig:
         config_dict.setdefault("decoder", {})
         config_dict.setdefault("circuit", {})
         config_dict.setdefault("code", {})
+        general = config_dict.get("general") or cls._default_general()
         return cls(
-            general_conf=cast(GeneralConfig, config_dict.get("general")),
+            general_conf=cast(GeneralConfig, dict(general)),
             device_conf=DeviceConfig.from_dict(cast(dict, config_dict.get("device"))),
             circuit_conf=CircuitConfig.from_dict(
                 cast(dict, config_dict.get("circuit"))
-- 
2.43.0


From f7985966f467ee12b46f5933f3faac1493d0869e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:54 +0000
Subject: [PATCH 38/54] fix: report a device that has not been built

---
 src/plaquette/frontend/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 2da9766..7a260a0 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -1888,7 +1888,7 @@ class ExperimentConfig:
     @property
     def device(self):
         """The built :class:`~.AbstractSimulator` object in the experiment."""
-        if self._circuit is None:
+        if self._device is None:
             raise ValueError(
                 "Simulator has not been instantiated yet, use build() or "
                 + "build_device() method to do so!"
-- 
2.43.0


From 992089baf34815fc5a766dbb5d07f1a59747e633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:54 +0000
Subject: [PATCH 39/54] fix: run experiments on the local simulators

---
 src/plaquette/frontend/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 7a260a0..b988c5f 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -2282,7 +2282,7 @@ class ExperimentConfig:
         """
         match self.general_conf["qec_property"]:
             case ["logical_error_rate"]:
-                if self._device._backend_class in plaquette.device.local_simulators:
+                if self._device._backend_name in plaquette.device.local_simulators:
                     test_success = np.zeros([self.device_conf.shots], dtype=bool)
                     for i in tqdm(range(self.device_conf.shots)):
                         self._device.run(cast(Circuit, self._circuit))
-- 
2.43.0


From 37160b999c17c799b2e302ca818bddd15c9d0b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:54 +0000
Subject: [PATCH 40/54] fix: write experiment configurations in the form they
 are read in

---
 src/plaquette/frontend/__init__.py | 32 +++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index b988c5f..372f908 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -2135,14 +2135,28 @@ class ExperimentConfig:
         )
 
     def as_dict(self) -> dict[str, Any]:
-        """Return all class attributes as dictionary."""
-        return_dict: dict[str, Any] = dict()
-        for dfield in fields(self):
-            if dfield.name == "exp_objects":
-                continue
-            return_dict[dfield.name] = self.__getattribute__(dfield.name).as_dict()
+        """Return the configuration as a dictionary.
 
-        return return_dict
+        The dictionary follows the schema that :meth:`from_dict` takes.
+        """
+        code = self.code_conf.as_dict()
+        if code["size"] == -1:  # the size is not relevant to the code
+            del code["size"]
+        errors = dict()
+        for name in ("qubit_errors", "gate_errors"):
+            conf = getattr(self.errors_conf, name)
+            errors[name] = conf.as_dict()
+            for key, value in list(errors[name].items()):
+                if isinstance(value, dict) and getattr(conf, key).is_empty():
+                    del errors[name][key]
+        return dict(
+            general=dict(self.general_conf),
+            device=self.device_conf.as_dict(),
+            code=code,
+            circuit=self.circuit_conf.as_dict(),
+            errors=errors,
+            decoder=self.decoder_conf.as_dict(),
+        )
 
     def update(self, **kwargs):
         """Update class attributes with given ``**kwargs``.
@@ -2267,12 +2281,12 @@ class ExperimentConfig:
     def dump_toml(self, toml_path: str) -> None:
         """Save the config as a ``toml`` file at the given path."""
         with open(toml_path, "w") as file:
-            toml.dump(self.__dict__, file)
+            toml.dump(self.as_dict(), file)
 
     def dump_json(self, json_path: str):
         """Save the config as a ``json`` file at the given path."""
         with open(json_path, "w") as file:
-            json.dump(self.__dict__, file)
+            json.dump(self.as_dict(), file)
 
     def run(self):
         """Run an experiment to get a logical error rate.
-- 
2.43.0


From 5b141e986dbec836df1938e1f6da23f6a79dd18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:26 +0000
Subject: [PATCH 41/54] fix: simulate no errors in experiments that sample none

---
 src/plaquette/frontend/__init__.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 372f908..15faaac 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -1429,11 +1429,10 @@ class ErrorsConfig:
         Returns:
             An :class:`~plaquette.errors.ErrorData` object.
         """
-        ed = ErrorData.from_lattice(
-            lattice,
-            self.qubit_errors.simulated_errors,
-            self.gate_errors.simulated_errors,
-        )
+        qubit_errors, gate_errors = self.simulated_errors
+        if qubit_errors is None and gate_errors is None:
+            gate_errors = ({}, "")  # no errors, instead of default ones
+        ed = ErrorData.from_lattice(lattice, qubit_errors, gate_errors)
         return ed
 
     def update(self, **kwargs):
-- 
2.43.0


From a2ccaa5b29cf1a2fe058230475bf7e446f09796c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:43 +0000
Subject: [PATCH 42/54] fix: draw the errors of an experiment in the same order
 in every process

---
 src/plaquette/frontend/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 15faaac..5e7f3d5 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -714,7 +714,7 @@ class QubitErrorsConfig:
         if not self.sample:
             return None
         sim_qub_errors_distr: dict = dict()
-        for key in self.QUBIT_KEYS:
+        for key in sorted(self.QUBIT_KEYS):  # fixed order: errors may be random
             qubit_metadata = cast(_QubitErrorMetadata, getattr(self, key))
             if qubit_metadata.enabled and not qubit_metadata.is_empty():
                 if qubit_metadata.distribution == "user":
@@ -1339,7 +1339,7 @@ class GateErrorsConfig:
             return None
 
         sim_gate_errors_distr: dict = dict()
-        for key in self.GATE_KEYS:
+        for key in sorted(self.GATE_KEYS):  # fixed order: errors may be random
             gate_metadata = cast(_GateErrorMetadata, getattr(self, key))
             if not gate_metadata.is_empty() and gate_metadata.enabled:
                 if isinstance(gate_metadata.distribution, str):
-- 
2.43.0


From f8d9cc246886d0181582feb547d562331239ff47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 43/54] fix: do not modify the error data given to decoders

---
 src/plaquette/decoders/decoderbase.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plaquette/decoders/decoderbase.py b/src/plaquette/decoders/decoderbase.py
index 36bf5e8..b382bd9 100644
--- a/src/plaquette/decoders/decoderbase.py
+++ b/src/plaquette/decoders/decoderbase.py
@@ -5,6 +5,7 @@
 from __future__ import annotations
 
 import abc
+import copy
 import warnings
 from typing import NoReturn, Optional, Sequence, Type
 
@@ -347,6 +348,7 @@ class DecoderInterface:
             "z": 1e-15,
         }
         if errordata is not None:
+            errordata = copy.deepcopy(errordata)  # leave the caller's data alone
             if "pauli" not in errordata:
                 errordata["pauli"] = {
                     q: _default_pauli_errors
-- 
2.43.0


From cea1acc565e5ca6734ffe7463fe23aced2687fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 44/54] fix: do not modify the error data given to the circuit
 generator

---
 src/plaquette/circuit/generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/circuit/generator.py b/src/plaquette/circuit/generator.py
index 5d5b91c..7c86c43 100644
--- a/src/plaquette/circuit/generator.py
+++ b/src/plaquette/circuit/generator.py
@@ -103,11 +103,11 @@ class QECCircuitGenerator:
             raise KeyError("There is an invalid key in the gate errors dictionary.")
 
         self.code = code
-        self.qubit_errors = qubit_errordata
+        self.qubit_errors = qubit_errordata.copy()
         for key in QubitErrorsDict.__optional_keys__:
             self.qubit_errors.setdefault(key, {})  # type: ignore
 
-        self.gate_errors = gate_errordata
+        self.gate_errors = gate_errordata.copy()
         for key in GateErrorsDict.__optional_keys__:
             self.gate_errors.setdefault(key, {})  # type: ignore
 
-- 
2.43.0


From 774c941d60753411d281974c2dc9f1e4c51d391d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:28 +0000
Subject: [PATCH 45/54] fix: iterate over the edges of a graph without a
 subgraph

---
 src/plaquette/decoders/unionfind_erasure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/decoders/unionfind_erasure.py b/src/plaquette/decoders/unionfind_erasure.py
index 391a63f..46c70c3 100644
--- a/src/plaquette/decoders/unionfind_erasure.py
+++ b/src/plaquette/decoders/unionfind_erasure.py
@@ -231,7 +231,7 @@ class Graph:
     def iter_edges(self):
         """Iterate over `(edge_idx, edge)` for all enabled edges."""
         if self.edge_enabled is None:
-            return self.edges.items()
+            return enumerate(self.edges)
         return ((i, edge) for i, edge in enumerate(self.edges) if self.edge_enabled[i])
 
     def is_vertex_enabled(self, vertex):
-- 
2.43.0


From 1b54397007a0ef0d3537431ba2405a9af8e5d335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 46/54] fix: draw lattices with Pauli Y factors

---
 src/plaquette/visualizer/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plaquette/visualizer/__init__.py b/src/plaquette/visualizer/__init__.py
index 7ef3f1f..8f32e5e 100644
--- a/src/plaquette/visualizer/__init__.py
+++ b/src/plaquette/visualizer/__init__.py
@@ -241,6 +241,7 @@ class LatticeVisualizer:
     #: Plotly options for drawing edges
     edge_kw = {
         "X": dict(name="Pauli X", line=dict(color="cornflowerblue", dash="solid")),
+        "Y": dict(name="Pauli Y", line=dict(color="mediumpurple", dash="dot")),
         "Z": dict(name="Pauli Z", line=dict(color="yellowgreen", dash="5px 5px")),
     }
 
@@ -420,6 +421,7 @@ class LatticeVisualizer:
     #: Matplotlib options for drawing edges
     mpl_edge_kw = {
         "X": dict(label="Pauli X", linestyle="solid", color="cornflowerblue"),
+        "Y": dict(label="Pauli Y", linestyle="dotted", color="mediumpurple"),
         "Z": dict(label="Pauli Z", linestyle="dashed", color="yellowgreen"),
     }
 
-- 
2.43.0


From 16502591ccf3ad85130eb55391253506200ea4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 47/54] fix: restore the colors of a visualizer after a failed
 drawing

---
 src/plaquette/visualizer/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/plaquette/visualizer/__init__.py b/src/plaquette/visualizer/__init__.py
index 8f32e5e..ec265a8 100644
--- a/src/plaquette/visualizer/__init__.py
+++ b/src/plaquette/visualizer/__init__.py
@@ -374,10 +374,11 @@ class LatticeVisualizer:
         vdf = pd.concat((vdf, self._mk_pauliframe_df(error, correction, only_pauli)))
         if grey:
             self._set_grey()
-        fig = self._draw(vdf, edf, height, margin)
-        if grey:
-            self._reset_grey()
-        return fig
+        try:
+            return self._draw(vdf, edf, height, margin)
+        finally:
+            if grey:
+                self._reset_grey()
 
     #: Matplotlib options for drawing vertices
     mpl_vertex_kw = {
-- 
2.43.0


From 9a9d33f65880a716ab7ea131983ecae3c74127fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 48/54] fix: draw circuits without measurements

---
 src/plaquette/visualizer/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plaquette/visualizer/__init__.py b/src/plaquette/visualizer/__init__.py
index ec265a8..c9e6f68 100644
--- a/src/plaquette/visualizer/__init__.py
+++ b/src/plaquette/visualizer/__init__.py
@@ -474,6 +474,8 @@ class CircuitVisualizer:
         qsm = openqasm.convert_to_openqasm(circuit).split("\n")
         qsm[0] = "OPENQASM 3.0;"
         qsm[1] = 'include "stdgates.inc";'
+        # Registers without any bits cannot be loaded.
+        qsm = [line for line in qsm if line != "creg c[0];"]
         qsm = "\n".join(qsm)
         self._circuit: qiskit.circuit.quantumcircuit.QuantumCircuit = qasm3.loads(qsm)
 
-- 
2.43.0


From 2e3ea9829758e8625d7b3afed1bfba392c8f79e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 49/54] fix: draw empty lattices without stabilizers

---
 src/plaquette/visualizer/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/visualizer/__init__.py b/src/plaquette/visualizer/__init__.py
index c9e6f68..518c5dc 100644
--- a/src/plaquette/visualizer/__init__.py
+++ b/src/plaquette/visualizer/__init__.py
@@ -139,7 +139,7 @@ class LatticeVisualizer:
         v_df = (
             pd.DataFrame(v_items)
             if v_items
-            else pd.DataFrame([], columns=["type_group"])
+            else pd.DataFrame([], columns=["type", "type_group"])
         )
         e_df = pd.DataFrame(e_items) if e_items else pd.DataFrame([], columns=["op"])
         return v_df, e_df
-- 
2.43.0


From 855b5deb605aee845e5b9e82837603bde06f5656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:59 +0000
Subject: [PATCH 50/54] fix: start a new circuit whenever a circuit generator
 is used

---
 src/plaquette/circuit/generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plaquette/circuit/generator.py b/src/plaquette/circuit/generator.py
index 7c86c43..a0c3c98 100644
--- a/src/plaquette/circuit/generator.py
+++ b/src/plaquette/circuit/generator.py
@@ -371,6 +371,8 @@ class QECCircuitGenerator:
         Returns:
             A Clifford circuit (to be simulated with :mod:`plaquette.device`)
         """
+        # Start with a new circuit, also if this method was called before
+        self.cb = circuit.CircuitBuilder(circuit.Circuit())
         logop_indices = self.stabcode.logical_ops_to_indices(logical_ops)
         # Check that different logical operators commute (if there is more than one).
         # (Measuring e.g. X_1 and Z_2 is fine, but we want to prevent e.g.
-- 
2.43.0


From 210b94cd4a69bfd9be10ef8ec6e9525a9d1d07dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:59 +0000
Subject: [PATCH 51/54] fix: refuse malformed single-qubit Pauli operators

---
 src/plaquette/pauli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 1f1a830..2321895 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1333,6 +1333,8 @@ def single_qubit_pauli_operator(op: str, qubit: int, qubits: int) -> Tableau:
         raise ValueError("Total qubit number must be 1 or more")
     if qubits <= qubit:
         raise ValueError("Total number of qubits less than target qubit position")
+    if not op or op[:-1] not in ("", "+", "-"):
+        raise ValueError("Only X, Y, or Z are allowed, optionally with sign")
 
     meas_op = np.zeros(2 * qubits + 1, dtype="u1")
     meas_op[-1] = 1 if op[0] == "-" else 0
-- 
2.43.0


From 876f6968d81e53d3c3249405759481c2c4e44aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:27 +0000
Subject: [PATCH 52/54] fix: refuse errors that occur with certainty also when
 zeros are replaced

---
 src/plaquette/syngraph/weights.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/syngraph/weights.py b/src/plaquette/syngraph/weights.py
index c9f6cc6..c59d8de 100644
--- a/src/plaquette/syngraph/weights.py
+++ b/src/plaquette/syngraph/weights.py
@@ -155,8 +155,10 @@ class WeightComputation:
             p_x = params.get("x", 0.0)
             p_y = params.get("y", 0.0)
             p_z = params.get("z", 0.0)
-            q_x[vertex.dataqubit_idx] = p_x + p_y
-            q_z[vertex.dataqubit_idx] = p_y + p_z
+            # Sums of probabilities can exceed one by rounding, or because decoders
+            # replace zeros by very small values.
+            q_x[vertex.dataqubit_idx] = min(p_x + p_y, 1.0)
+            q_z[vertex.dataqubit_idx] = min(p_y + p_z, 1.0)
         self._update_p_eff(q_x, q_z)
 
     def _p_eff_erasure(self):
-- 
2.43.0


From daedae06f5df75f7966c26c3177dc454ec88150b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:49 +0000
Subject: [PATCH 53/54] fix: apply X, Y and Z gates also to qubits given by an
 iterator

---
 src/plaquette/pauli.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 2321895..75eca46 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1365,6 +1365,7 @@ def x(state: Tableau, qubits: int | Iterable[int]) -> Tableau:
     """
     if isinstance(qubits, int):
         qubits = [qubits]
+    qubits = list(qubits)  # iterators can only be used once
     number_of_qubits = state.shape[1] // 2
 
     if any(map(lambda q: q >= number_of_qubits, qubits)):
@@ -1388,6 +1389,9 @@ def y(state: Tableau, qubits: int | Iterable[int]) -> Tableau:
         state: The state in the tableau representation
         qubits: The indices of the target qubit
     """
+    if isinstance(qubits, int):
+        qubits = [qubits]
+    qubits = list(qubits)  # iterators can only be used once
     return z(x(state, qubits), qubits)
 
 
@@ -1505,6 +1509,7 @@ def z(state: Tableau, qubits: int | Iterable[int] | Tableau):
     """
     if isinstance(qubits, int):
         qubits = [qubits]
+    qubits = list(qubits)  # iterators can only be used once
     number_of_qubits = state.shape[1] // 2
 
     if any(map(lambda q: q >= number_of_qubits, qubits)):
-- 
2.43.0


From 250106c6fe312c90610cadc48818c09b9114e562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:05 +0000
Subject: [PATCH 54/54] fix: reset qubits given by a NumPy array

---
 src/plaquette/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 75eca46..5c2057f 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1295,7 +1295,7 @@ def reset_qubits_to_eigenstate(
 
     state_qubits = count_qubits(state)[0]
 
-    for qubit in targets:
+    for qubit in map(int, targets):  # gates do not accept NumPy's integers
         state, meas_outcome = measure(
             state, single_qubit_pauli_operator(pauli, qubit, state_qubits)
         )
-- 
2.43.0

