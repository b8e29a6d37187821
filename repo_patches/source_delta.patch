From a45813a8bdf2b90a7c8d8b09f943f84cdaa604c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:12 +0000
Subject: [PATCH 01/13] fix: BOBS strategy keeps counting approximated
 particles across simulate calls

---
 .../nonuniform_losses_approximation_strategy.py                  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
index 0f59ebd..ccaec95 100644
--- a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
+++ b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
@@ -228,6 +228,7 @@ class NonuniformLossesApproximationStrategy:
 
         # Prepare the state used in the approximate simulation.
         self._state_without_approximated_modes = list(input_state)
+        self._approximated_modes_particles_number = 0
 
         for i in range(self._approximated_modes_number):
             self._approximated_modes_particles_number += input_state[i]
-- 
2.43.0


From db217e57c2b1666574e082897f0b578b65c60bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:12 +0000
Subject: [PATCH 02/13] fix: BOBS strategy returns more samples than requested

---
 .../nonuniform_losses_approximation_strategy.py      | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
index ccaec95..64fee14 100644
--- a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
+++ b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
@@ -242,13 +242,11 @@ class NonuniformLossesApproximationStrategy:
         )
 
         # Get samples number per thread
-        samples_per_thread = (
-            samples_number
-            + self._threads_number
-            - (samples_number % self._threads_number)
-        )
-        samples_per_thread = int(samples_per_thread / self._threads_number)
-        samples_for_threads = [samples_per_thread] * self._threads_number
+        samples_for_threads = [
+            samples_number // self._threads_number
+        ] * self._threads_number
+        for i in range(samples_number % self._threads_number):
+            samples_for_threads[i] += 1
 
         # Context is required on Linux systems, as the default (fork) produces undesired
         # results! Spawn is default on osX and Windows and works as expected.
-- 
2.43.0


From 764640f2b41023cf7561cf5e94533573f07bc66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:12 +0000
Subject: [PATCH 03/13] fix: uniform-loss BOBS weights ignore the
 multiplicities of bunched modes

---
 .../lossy_state_approximated_simulation_strategy.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
index fa2f51e..9c1eee1 100644
--- a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
+++ b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
@@ -173,12 +173,17 @@ class LossyStateApproximationSimulationStrategy(SimulationStrategyInterface):
         )
         self._not_approximated_lossy_mixed_state_parts_weights = []
 
-        n = sum(self._not_approximated_lossy_mixed_state_parts[-1])
+        whole_part = self._not_approximated_lossy_mixed_state_parts[-1]
+        n = sum(whole_part)
 
         for state_part in self._not_approximated_lossy_mixed_state_parts:
-            self._not_approximated_lossy_mixed_state_parts_weights.append(
-                possible_weights[int(sum(state_part))] / binom(n, sum(state_part))
-            )
+            weight = possible_weights[int(sum(state_part))] / binom(n, sum(state_part))
+
+            # A bunched mode can lose its particles in several ways.
+            for initial_occupation, occupation in zip(whole_part, state_part):
+                weight *= binom(initial_occupation, occupation)
+
+            self._not_approximated_lossy_mixed_state_parts_weights.append(weight)
 
     def _get_possible_lossy_inputs_weights(
         self, input_state: Sequence[int]
-- 
2.43.0


From 8f599f4ecf755471180669e9ad91ef4553914b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:12 +0000
Subject: [PATCH 04/13] fix: uniform-loss BOBS crashes when one of the state
 parts is empty

---
 .../lossy_state_approximated_simulation_strategy.py            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
index 9c1eee1..927a6c9 100644
--- a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
+++ b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
@@ -334,7 +334,8 @@ class LossyStateApproximationSimulationStrategy(SimulationStrategyInterface):
                 p=self._not_approximated_lossy_mixed_state_parts_weights,
             )
         ]
-        return hstack([not_approximated_part, approximated_part])
+        # Either of the parts may be empty, which would otherwise make the state float.
+        return hstack([not_approximated_part, approximated_part]).astype(int)
 
     def _permuted_interferometer_matrix(self) -> ndarray:
         """
-- 
2.43.0


From 01c79dd7757404340904b427f36caed6ea993f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:41 +0000
Subject: [PATCH 05/13] fix: bosonic space dimension is inexact beyond double
 precision

---
 .../boson_sampling_utilities/boson_sampling_utilities.py  | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/theboss/boson_sampling_utilities/boson_sampling_utilities.py b/theboss/boson_sampling_utilities/boson_sampling_utilities.py
index 338cf85..35c7b3a 100644
--- a/theboss/boson_sampling_utilities/boson_sampling_utilities.py
+++ b/theboss/boson_sampling_utilities/boson_sampling_utilities.py
@@ -25,7 +25,7 @@ from numpy import (
     exp,
 )
 from numpy.linalg import svd
-from scipy.special import binom, factorial
+from scipy.special import comb, factorial
 from numpy.random import rand
 
 from theboss.quantum_computations_utilities import compute_qft_matrix
@@ -226,13 +226,15 @@ def bosonic_space_dimension(
             :math:`n` particles.
     """
 
-    dimension: int = round(binom(particles_number + modes_number - 1, particles_number))
+    dimension: int = comb(
+        particles_number + modes_number - 1, particles_number, exact=True
+    )
 
     if not losses:
         return dimension
 
     for n in range(particles_number):
-        dimension += round(binom(n + modes_number - 1, n))
+        dimension += comb(n + modes_number - 1, n, exact=True)
 
     return dimension
 
-- 
2.43.0


From f633c74b18e293a946f7e0dbb29349be69fbbd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:41 +0000
Subject: [PATCH 06/13] fix: number of states of a type is an inexact float

---
 .../boson_sampling_utilities/boson_sampling_utilities.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/theboss/boson_sampling_utilities/boson_sampling_utilities.py b/theboss/boson_sampling_utilities/boson_sampling_utilities.py
index 35c7b3a..17666c0 100644
--- a/theboss/boson_sampling_utilities/boson_sampling_utilities.py
+++ b/theboss/boson_sampling_utilities/boson_sampling_utilities.py
@@ -464,15 +464,10 @@ def compute_number_of_states_of_given_type(state_type: Sequence[int]) -> int:
     for val in vals:
         counts.append(state_type.count(val))
 
-    type_count = factorial(modes_number)
+    number_of_states_of_given_type = factorial(modes_number, exact=True)
 
     for count in counts:
-        type_count /= factorial(count)
-
-    number_of_states_of_given_type = factorial(modes_number)
-
-    for count in counts:
-        number_of_states_of_given_type //= factorial(count)
+        number_of_states_of_given_type //= factorial(count, exact=True)
 
     return number_of_states_of_given_type
 
-- 
2.43.0


From 6178aff8a174fea71fc888d43a64edb2c6a9120b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:41 +0000
Subject: [PATCH 07/13] fix: interferometer matrix in expanded space is not
 unitary

---
 theboss/boson_sampling_utilities/boson_sampling_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theboss/boson_sampling_utilities/boson_sampling_utilities.py b/theboss/boson_sampling_utilities/boson_sampling_utilities.py
index 17666c0..2172b74 100644
--- a/theboss/boson_sampling_utilities/boson_sampling_utilities.py
+++ b/theboss/boson_sampling_utilities/boson_sampling_utilities.py
@@ -337,7 +337,7 @@ def prepare_interferometer_matrix_in_expanded_space(
     # This is the most specific thing here.
     expanded_singular_values_matrix = block(
         [
-            [diag(singular_values), loss_transfer_extension_matrix],
+            [diag(singular_values), -loss_transfer_extension_matrix],
             [loss_transfer_extension_matrix, diag(singular_values)],
         ]
     )
-- 
2.43.0


From 5034853aea2463a9b70bffedf231832f0bc6dd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:41 +0000
Subject: [PATCH 08/13] fix: prime factors contain 1 and floats

---
 theboss/quantum_computations_utilities.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/theboss/quantum_computations_utilities.py b/theboss/quantum_computations_utilities.py
index 83e2d70..f01a2c9 100644
--- a/theboss/quantum_computations_utilities.py
+++ b/theboss/quantum_computations_utilities.py
@@ -132,14 +132,15 @@ def get_prime_factors(number: int) -> List[int]:
 
     while number % 2 == 0:
         prime_factors.append(2)
-        number = number / 2
+        number //= 2
 
     for i in range(3, int(sqrt(number)) + 1, 2):
         while number % i == 0:
             prime_factors.append(i)
-            number = number / i
+            number //= i
 
-    prime_factors.append(number)
+    if number > 1:
+        prime_factors.append(number)
 
     return prime_factors
 
-- 
2.43.0


From 5de174fbd313fdad66104ef17cf9c780820a0274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:41 +0000
Subject: [PATCH 09/13] fix: uniform-loss BOBS strategies share the factory's
 permanent calculator

---
 theboss/simulation_strategies/simulation_strategy_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theboss/simulation_strategies/simulation_strategy_factory.py b/theboss/simulation_strategies/simulation_strategy_factory.py
index 8ed6180..85db37c 100644
--- a/theboss/simulation_strategies/simulation_strategy_factory.py
+++ b/theboss/simulation_strategies/simulation_strategy_factory.py
@@ -219,7 +219,7 @@ class SimulationStrategyFactory:
         self,
     ) -> LossyStateApproximationSimulationStrategy:
         return LossyStateApproximationSimulationStrategy(
-            bs_permanent_calculator=self._bs_permanent_calculator,
+            bs_permanent_calculator=deepcopy(self.bs_permanent_calculator),
             uniform_transmissivity=self._experiment_configuration.uniform_transmissivity,
             hierarchy_level=self._experiment_configuration.hierarchy_level,
             threads_number=self._available_threads_number,
-- 
2.43.0


From c763f7920219d60b13052640d69b9463c889b085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:41 +0000
Subject: [PATCH 10/13] fix: sample based calculator ignores its configured
 number of samples

---
 .../bs_sample_based_distribution_calculator.py                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py b/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
index 065dbe2..e0586e5 100644
--- a/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
+++ b/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
@@ -63,13 +63,13 @@ class BSSampleBasedDistributionCalculator(BSDistributionCalculatorInterface):
         self._samples_number = new_samples_number
 
     def calculate_distribution(self) -> List[float]:
-        return self.calculate_approximate_distribution()
+        return self.calculate_approximate_distribution(self._samples_number)
 
     def calculate_probabilities_of_outcomes(
         self, outcomes: Iterable[Iterable[int]]
     ) -> List[float]:
         self._outcomes = outcomes
-        return self.calculate_approximate_distribution()
+        return self.calculate_approximate_distribution(self._samples_number)
 
     def calculate_approximate_distribution(
         self, samples_number: int = 5000
-- 
2.43.0


From cfb00517b47c7cfa9e49ad8138220f22dd29d547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:41 +0000
Subject: [PATCH 11/13] fix: sample based calculator does not report its
 default outcomes

---
 .../bs_sample_based_distribution_calculator.py   | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py b/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
index e0586e5..1959c6b 100644
--- a/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
+++ b/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
@@ -81,13 +81,7 @@ class BSSampleBasedDistributionCalculator(BSDistributionCalculatorInterface):
             :return: Approximate distribution as a list.
         """
 
-        if self._outcomes is not None:
-            possible_outcomes = self._outcomes
-        else:
-            possible_outcomes = generate_possible_states(
-                self.configuration.number_of_particles_left,
-                self.configuration.number_of_modes,
-            )
+        possible_outcomes = self.get_outcomes_in_proper_order()
 
         simulator = BosonSamplingSimulator(self._strategy)
 
@@ -110,4 +104,10 @@ class BSSampleBasedDistributionCalculator(BSDistributionCalculatorInterface):
         return list(outcomes_probabilities)
 
     def get_outcomes_in_proper_order(self) -> List[ndarray]:
-        return self._outcomes
+        if self._outcomes is not None:
+            return self._outcomes
+
+        return generate_possible_states(
+            self.configuration.number_of_particles_left,
+            self.configuration.number_of_modes,
+        )
-- 
2.43.0


From cf3d172cb60a0e5805dd74ece332c8720f3ac872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:25 +0000
Subject: [PATCH 12/13] fix: lossy-state approximation takes its number of
 modes from the matrix

With a permanent calculator that has been given its matrix only (as every
other strategy accepts it) the constructor raised, as it measured the modes
by the calculator's input state.
---
 .../lossy_state_approximated_simulation_strategy.py           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
index 927a6c9..7974142 100644
--- a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
+++ b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
@@ -60,8 +60,8 @@ class LossyStateApproximationSimulationStrategy(SimulationStrategyInterface):
             bs_permanent_calculator  # Should contain a UNITARY (no losses here!)
         )
         self._qft_matrix = generate_qft_matrix_for_first_m_modes(
-            len(bs_permanent_calculator.input_state) - hierarchy_level,
-            len(bs_permanent_calculator.input_state),
+            len(bs_permanent_calculator.matrix) - hierarchy_level,
+            len(bs_permanent_calculator.matrix),
         )
 
     @staticmethod
-- 
2.43.0


From 5db59068f4283cf50698d548ce627b6c86ead1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:31 +0000
Subject: [PATCH 13/13] fix: non-uniform losses strategy handles a network that
 nothing gets through

---
 .../nonuniform_losses_approximation_strategy.py        | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
index 64fee14..a95e98e 100644
--- a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
+++ b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
@@ -136,10 +136,12 @@ class NonuniformLossesApproximationStrategy:
         losses: List[float] = [1 - eta for eta in transmissivities]
         self._uniform_losses = min(losses)
 
-        # Form the interferometer_matrx with losses extracted.
-        transmissivities = [
-            eta / (1 - self._uniform_losses) for eta in transmissivities
-        ]
+        # Form the interferometer_matrx with losses extracted. If nothing gets through
+        # the interferometer, then there's nothing left to rescale.
+        if self._uniform_losses < 1:
+            transmissivities = [
+                eta / (1 - self._uniform_losses) for eta in transmissivities
+            ]
         s = [sqrt(eta) for eta in transmissivities]
         self._initial_matrix = u @ diag(s) @ v
 
-- 
2.43.0

