#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts live)."""
import json, os

BSU = "theboss/boson_sampling_utilities/boson_sampling_utilities.py"
PC = "theboss/boson_sampling_utilities/permanent_calculators/"
DC = "theboss/distribution_calculators/"
SS = "theboss/simulation_strategies/"
NS = "theboss/network_simulation_strategy/"
QC = "theboss/quantum_computations_utilities.py"

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
            "observe_at": observe, "hook_needed": None,
        },
    })


prop("C01", "Every permanent method returns the permanent of the scattering matrix",
     "For every square complex matrix and every input and output Fock state with equal particle numbers (bunched, with empty modes, full, or vacuum), each permanent method of the package returns the permanent of the matrix obtained by repeating columns by the input occupation and rows by the output occupation; the vacuum gives 1. All methods therefore agree with each other up to floating-point error, whether lists, tuples or signed integer arrays carry the states.",
     ["inputs"], "all square matrices, all pairs of Fock states with equal particle number, every method",
     "The tests compare the methods on a handful of random 5x5 matrices and hand-picked states; nothing covers every occupation pattern, larger bunching, more particles or the sign/binomial bookkeeping of each code visited.",
     [PC + f for f in ("bs_permanent_calculator_base.py", "ryser_permanent_calculator.py", "chin_huh_permanent_calculator.py", "glynn_gray_permanent_calculator.py", "classic_permanent_calculator.py")] + [BSU],
     [("Guan-code iteration with incremental sums, binomials and sign", PC + "bs_permanent_calculator_base.py: BSGuanCodeBasedPermanentCalculatorBase"),
      ("Gray-code Glynn iteration", PC + "glynn_gray_permanent_calculator.py"),
      ("row expansion", PC + "classic_permanent_calculator.py")],
     ["return value of compute_permanent()"],
     [("r vector / directions / binomial product / sums", "current Guan code and the quantities updated along with it", PC + "bs_permanent_calculator_base.py")])

prop("C02", "Permanent calculators are independent of their history",
     "After any sequence of assigning the matrix, the input state and the output state and of computing, a permanent (or submatrix-permanent) calculator returns exactly what a freshly built calculator with the current assignment would return. Computing twice gives the same value, and neither computing nor assigning ever modifies a matrix or a state object supplied by the caller.",
     ["histories", "inputs"], "all interleavings of set-matrix / set-input / set-output / compute on one calculator, including changes of the number of modes and particles",
     "Every test builds a calculator, uses it once or re-uses it in one fixed order; stale sums, limits, codes or multipliers after an unusual order of calls are not reachable by them.",
     [PC + "bs_permanent_calculator_base.py", PC + "bs_submatrices_permanent_calculator_base.py", PC + "bs_cc_ch_submatrices_permanent_calculator.py", PC + "bs_cc_ryser_submatrices_permanent_calculator.py"],
     [("re-initialisation at the start of every computation", PC + "bs_permanent_calculator_base.py: _initialize_permanent_computation; bs_submatrices_permanent_calculator_base.py: _initialize_permanents_computation")],
     ["return values of compute_permanent()/compute_permanents() along a history", "caller-owned arrays before and after"])

prop("C03", "Submatrix permanents equal the permanents with one input particle removed",
     "For every square matrix, every input state with at least one particle and every output state with exactly one particle fewer, each submatrix-permanent method returns one value per mode: for an occupied input mode the permanent of the scattering matrix with one particle removed from that mode, and 0 for an empty mode. Laplace-expanding these values along a new output row gives the permanent for the enlarged output.",
     ["inputs"], "all matrices, all input states (including bunched ones and a single particle), all matching outputs, both methods",
     "Two random instances per method are tested; the signs, the excluded codes and the reduced binomials differ for every occupation pattern.",
     [PC + "bs_submatrices_permanent_calculator_base.py", PC + "bs_cc_ryser_submatrices_permanent_calculator.py", PC + "bs_cc_ch_submatrices_permanent_calculator.py"],
     [("shared Guan-code walk accumulating one sum per removed particle", PC + "bs_submatrices_permanent_calculator_base.py: compute_permanents")],
     ["return value of compute_permanents()"])

prop("C04", "The effective scattering matrix repeats rows and columns by occupation",
     "For every matrix and every pair of non-vacuum Fock states, the effective scattering matrix has one row per output particle and one column per input particle, in mode order, and each entry is the interferometer entry at the corresponding output and input mode; if either state is the vacuum it is empty. Re-assigning matrix or states and recomputing always reflects the current assignment only.",
     ["inputs", "histories"], "all matrices, all state pairs (also with different particle numbers), all re-assignments",
     "No test looks at the scattering matrix itself; it is only used indirectly inside some permanent methods.",
     [BSU], [("column then row repetition", BSU + ": EffectiveScatteringMatrixCalculator.calculate")],
     ["return value of calculate()"])

prop("C05", "State enumeration lists every Fock state exactly once and matches the dimension",
     "For every particle number and every number of modes, the generated list of states contains every occupation vector with exactly that many particles (with losses: at most that many) exactly once and nothing else, with sectors in increasing particle number and the states of a sector in decreasing lexicographic order. The reported dimension of the (lossy) bosonic space is the exact integer number of such states, also where it is too large to enumerate or to be exact in floating point, and impossible arguments give an empty list. What callers do with a returned list never influences later results.",
     ["inputs"], "all particle numbers, mode numbers and the losses flag",
     "One (n, m) = (5, 10) instance and the edge cases 0 and -1 are tested.",
     [BSU], [("successor walk over compositions, then sort", BSU + ": _generate_possible_n_particle_states"), ("stars and bars", BSU + ": bosonic_space_dimension")],
     ["return value of generate_possible_states and bosonic_space_dimension"])

prop("C06", "Mode-occupation and mode-assignment representations are inverse to each other",
     "Converting any occupation vector to the particle (assignment) representation and back, with the number of modes given, returns the same vector; the assignment is the sorted list with each mode repeated by its occupation, and an assignment in any order converts to its occupation counts. Without a given mode number the result is trimmed after the highest occupied mode, and the conversions never modify their argument.",
     ["inputs"], "all occupation vectors and all (also unsorted) assignments, any sequence type",
     "A single state is converted in each direction by the tests.",
     [BSU], [("counting and repeating", BSU + ": mode_assignment_to_mode_occupation, mode_occupation_to_mode_assignment")],
     ["return values"])

prop("C07", "Lossy inputs are exactly the sub-states with the requested particle number",
     "For every input state and every number of particles left between 0 and its total, the list of lossy inputs contains every occupation vector that is mode-wise at most the input and has that many particles, each exactly once and nothing else. Over all numbers of particles left, weighting each by the product of its mode-wise binomials counts every subset of particles exactly once.",
     ["inputs"], "all input states (bunched, with gaps, vacuum) and all numbers of particles left",
     "One bunched input is tested against a hard-coded list.",
     [BSU], [("combinations with de-duplication", BSU + ": generate_lossy_n_particle_input_states")],
     ["return value"])

prop("C08", "State types and their counting functions are consistent with enumeration",
     "For every number of modes, particles and the losses flag, the generated state types are exactly the non-increasing occupation vectors, each once, and their number equals the counting function. The number of k-element integer partitions is exact for every positive k and n, and the number of states of a type is the exact integer number of distinct mode permutations (for any size), so that summed over the types it gives the dimension of the bosonic space.",
     ["inputs"], "all mode and particle numbers, losses flag, all representatives of a type",
     "One (n, m) pair and a few partitions are tested; only lengths are compared.",
     [BSU], [("integer partitions and multinomials", BSU + ": generate_state_types, compute_number_of_state_types, compute_number_of_states_of_given_type, compute_number_of_k_element_integer_partitions_of_n")],
     ["return values"])

prop("C09", "The fixed-loss calculator returns the exact boson-sampling distribution",
     "For every unitary interferometer, every input state and every number of particles left, the fixed-loss distribution calculator gives for each outcome the exact probability: uniform average over which particles are lost of |permanent|^2 over the factorials of input and output occupations. The distribution lists exactly the outcomes reported in order, is non-negative and sums to 1; probabilities of any chosen list of outcomes come back in the order asked, whichever permanent method is used, replacing the calculator's configuration makes later results follow the new one only, and results do not follow changes the caller makes to the configuration object it constructed the calculator with.",
     ["inputs", "configurations", "histories"], "all unitaries, input states, loss numbers, outcome lists, permanent methods, repeated use",
     "Only sums are checked for two random inputs, and values for one 3-mode permutation-like case.",
     [DC + "bs_distribution_calculator_with_fixed_losses.py", BSU],
     [("symmetrised sum over lossy inputs with multiplicities and normalisation", DC + "bs_distribution_calculator_with_fixed_losses.py")],
     ["calculate_distribution, calculate_probabilities_of_outcomes, get_outcomes_in_proper_order"])

prop("C10", "The uniform-loss calculator returns the exact lossy distribution",
     "For every unitary, input state and transmissivity in [0, 1], the uniform-loss distribution calculator gives each outcome (any particle number from 0 to the input's) its exact probability when every particle independently survives with the transmissivity; the probabilities are listed in the order of the reported outcomes and sum to 1. Transmissivity 1 and 0 give the lossless distribution and the vacuum, and switching the binomial weights off and on again makes the sectors individually normalised and restores the original distribution. Results do not follow changes the caller makes to the configuration object after constructing the calculator.",
     ["inputs", "configurations", "histories"], "all unitaries, inputs, transmissivities, outcome lists and weight-switch histories",
     "Only the sum is tested at a few parameters.",
     [DC + "bs_exact_distribution_with_uniform_losses.py", DC + "bs_distribution_calculator_with_fixed_losses.py"],
     [("binomial mixture of fixed-loss sub-distributions, computed in a process pool", DC + "bs_exact_distribution_with_uniform_losses.py")],
     ["calculate_distribution, calculate_probabilities_of_outcomes, set_weightless, get_outcomes_in_proper_order"])

prop("C11", "Lossless exact samplers follow the exact boson-sampling distribution",
     "For every unitary and every input state, each lossless generalized Clifford & Clifford sampler (both algorithm variants and the mode-assignment one) returns samples whose probability is exactly |permanent|^2 over the occupation factorials, taken over all its random choices. Consequently every sample conserves the particle number, never has probability zero under that law, and every outcome of positive probability can occur.",
     ["inputs", "schedules"], "all unitaries and inputs; all sequences of random choices made by the sampler",
     "The tests draw 1000 samples at one or two inputs and accept a total variation distance of ~0.2, so a systematically wrong step is invisible.",
     [SS + "generalized_cliffords_simulation_strategy.py", SS + "generalized_cliffords_b_simulation_strategy.py", SS + "mode_assignment_generalized_cliffords_simulation_strategy.py"],
     [("chain of conditional pmfs, cached per partial output", SS + "generalized_cliffords_simulation_strategy.py: _fill_r_sample"), ("random particle order with Laplace-expanded pmf", SS + "generalized_cliffords_b_simulation_strategy.py: _compute_pmf")],
     ["return value of simulate() under every resolution of the random choices"],
     [("partial sample, remaining particles, pmf cache", "state of the chain", SS + "generalized_cliffords_simulation_strategy.py")])

prop("C12", "Uniform-loss exact samplers follow the exact lossy distribution",
     "For every unitary, input state and transmissivity in [0, 1], each uniform-loss generalized Clifford & Clifford sampler returns samples whose law is exactly the distribution in which every particle independently survives with the transmissivity and the survivors interfere according to the permanent rule. At transmissivity 1 no particle is lost and at 0 all are.",
     ["inputs", "schedules"], "all unitaries, inputs, transmissivities; all random choices",
     "Sampling tests with a loose total-variation tolerance at one transmissivity; one of the samplers has no test at all (TODO in its docstring).",
     [SS + "generalized_cliffords_uniform_losses_simulation_strategy.py", SS + "generalized_cliffords_b_uniform_losses_simulation_strategy.py"],
     [("per-particle survival draw / binomial sector draw", SS + "generalized_cliffords_uniform_losses_simulation_strategy.py: _fill_r_sample; generalized_cliffords_b_uniform_losses_simulation_strategy.py: _get_number_of_particles_left")],
     ["return value of simulate() under every resolution of the random choices"])

prop("C13", "The lossy-network sampler follows the exact law of the lossy interferometer",
     "For every (possibly non-uniformly) lossy interferometer matrix and every input state, samples have exactly the law of the physical lossy network: the marginal over unobserved loss modes of any unitary extension of that matrix. With a unitary matrix nothing is lost, a uniformly scaled unitary gives the uniform-loss law, and setting a new matrix makes subsequent samples follow the new matrix.",
     ["inputs", "schedules", "histories"], "all sub-unitary matrices (losses before, after or inside the network) and inputs; all random choices; matrix changes",
     "The tests compare sampled frequencies at loose tolerance for one diagonal-loss matrix.",
     [SS + "lossy_networks_generalized_cliffords_simulation_strategy.py", BSU],
     [("dilation to twice the modes, exact sampling, trimming of the loss modes", SS + "lossy_networks_generalized_cliffords_simulation_strategy.py; " + BSU + ": prepare_interferometer_matrix_in_expanded_space")],
     ["return value of simulate() under every resolution of the random choices"])

prop("C14", "The non-uniform-loss hierarchical approximation samples its intended mixture",
     "For every (possibly lossy) interferometer, input state and number of approximated leading modes, samples follow exactly the law obtained by replacing the particles of the approximated modes by independent particles spread uniformly over those modes (a dephased separable state), leaving the other modes exact, and sending the result through the lossy interferometer. With no approximated mode this is the exact lossy law; out-of-range numbers of approximated modes behave as the nearest valid one.",
     ["inputs", "schedules", "configurations"], "all matrices, inputs, numbers of approximated modes; all random choices including the random phases",
     "Sampling tests with a tolerance that includes the approximation bound itself cannot distinguish a wrong mixture from a right one.",
     [SS + "nonuniform_losses_approximation_strategy.py", SS + "lossy_networks_generalized_cliffords_simulation_strategy.py"],
     [("extraction of uniform losses, bunching, random phases and Fourier transform on the approximated modes", SS + "nonuniform_losses_approximation_strategy.py")],
     ["return value of simulate() under every resolution of the random choices"])

prop("C15", "The uniform-loss hierarchical approximation keeps each particle independently",
     "For every unitary, input state, transmissivity and hierarchy level (number of exactly treated modes, from none to all), the sampler returns valid samples whose total particle number is binomially distributed with the transmissivity. When all modes are treated exactly the samples follow the exact uniform-loss law of the given input state and interferometer; when none is, the surviving particles enter independently and uniformly spread over all modes (a dephased separable state) and then interfere through the interferometer.",
     ["inputs", "schedules", "configurations"], "all unitaries, inputs (also bunched), transmissivities, hierarchy levels; all random choices",
     "There is no test for this strategy (a TODO in the test file says so).",
     [SS + "lossy_state_approximated_simulation_strategy.py"],
     [("independent loss of the exact and the approximated input parts", SS + "lossy_state_approximated_simulation_strategy.py: simulate, _get_input_state_for_sampling")],
     ["return value of simulate() under every resolution of the random choices"])

prop("C16", "The separable-state approximations sample the dephased product law",
     "For every interferometer, input with n particles (n at most the number of modes) and number of particles left, the fixed-loss separable sampler returns that many independent particles which, averaged over the random phases, follow the law of particles placed independently and uniformly on the first n modes and then interfering through the interferometer; on a lossy interferometer particles may additionally be lost accordingly. The uniform-loss separable sampler is the binomial mixture of these laws.",
     ["inputs", "schedules"], "all interferometers (unitary or lossy), n, particles left, transmissivities; all random choices including phases",
     "The tests use one permutation matrix and a loose tolerance including the approximation error.",
     [SS + "fixed_loss_simulation_strategy.py", SS + "uniform_loss_simulation_strategy.py", NS + "lossy_network_simulation_strategy.py", NS + "lossless_network_simulation_strategy.py"],
     [("phase-randomised single-particle state, independent inverse-CDF draws", SS + "fixed_loss_simulation_strategy.py")],
     ["return value of simulate() under every resolution of the random choices"])

prop("C17", "simulate returns exactly the requested number of well-formed samples",
     "For every simulation strategy, input state and requested number of samples (0, 1 or many, whatever the number of worker threads, directly or through the simulator object), simulate returns a list with exactly that many samples. Every sample has one non-negative integer-valued entry per mode and never more particles than the input; strategies without losses return exactly the input's particle number, the fixed-loss strategy exactly the configured number on a lossless network, and the vacuum input gives vacuum samples.",
     ["inputs", "configurations", "schedules"], "all strategies, inputs, sample numbers, thread numbers; all random choices",
     "Tests divide counts by the number requested and never compare the number returned; no test covers 0 samples, the vacuum or thread counts.",
     [SS + f for f in ("generalized_cliffords_simulation_strategy.py", "nonuniform_losses_approximation_strategy.py", "lossy_state_approximated_simulation_strategy.py", "fixed_loss_simulation_strategy.py", "uniform_loss_simulation_strategy.py")] + ["theboss/boson_sampling_simulator.py"],
     [("sampling loops and distribution of samples over workers", SS + "nonuniform_losses_approximation_strategy.py: simulate; lossy_state_approximated_simulation_strategy.py: _compute_number_of_samples_for_each_thread")],
     ["length and entries of the list returned by simulate()"])

prop("C18", "Re-using a simulation strategy never changes the law of later samples",
     "For every strategy, after any history of simulate calls with other input states or sample numbers (and of matrix changes where offered), the next simulate call samples from exactly the law a freshly built strategy with the current matrix would use. The caller's input states and matrices are never modified.",
     ["histories", "inputs", "schedules"], "all histories of simulate / set-matrix calls on one strategy object",
     "Each test uses a fresh strategy once.",
     [SS + f for f in ("generalized_cliffords_simulation_strategy.py", "generalized_cliffords_b_simulation_strategy.py", "generalized_cliffords_uniform_losses_simulation_strategy.py", "nonuniform_losses_approximation_strategy.py", "lossy_state_approximated_simulation_strategy.py", "lossy_networks_generalized_cliffords_simulation_strategy.py")],
     [("reset of per-simulation state and pmf cache at the start of simulate", SS + "generalized_cliffords_simulation_strategy.py: simulate")],
     ["law of the samples of the last call of a history", "caller-owned objects"],
     [("pmf cache, labelled sub-states, particle counters", "per-simulation state that must not leak", SS)])

prop("C19", "Lossy interferometers are dilated faithfully and evolve states linearly",
     "For every sub-unitary matrix, the expanded interferometer is a unitary of twice the size whose upper-left block is the given matrix, and the extracted mode transmissivities are the squared singular values. For every matrix and state vector, the lossless and the lossy network simulation return the matrix applied to the state, without modifying either.",
     ["inputs"], "all (sub-)unitary matrices including singular and unitary ones, all state vectors",
     "The dilation tests compare against `.all` without calling it and therefore never fail; unitarity is not tested.",
     [BSU, NS + "lossy_network_simulation_strategy.py", NS + "lossless_network_simulation_strategy.py"],
     [("SVD-based dilation", BSU + ": prepare_interferometer_matrix_in_expanded_space"), ("expand, evolve, trim", NS + "lossy_network_simulation_strategy.py")],
     ["return values"])

prop("C20", "Factories build what is configured and keep their products independent",
     "For every supported type and configuration, the strategy factory returns a strategy whose samples follow the law of that type with the currently configured matrix, transmissivity, particle numbers and hierarchy level, and the permanent factory returns a calculator of the selected method with the current matrix and states; an unlisted strategy type gives the fixed-loss strategy. Re-configuring the factory (type, configuration, permanent calculator or its matrix) afterwards or using one product never changes the behaviour of a product generated earlier.",
     ["configurations", "histories"], "all strategy and calculator types, all configurations, all interleavings of generating, re-configuring and using products",
     "Tests generate one product per factory configuration and check only sampled frequencies.",
     [SS + "simulation_strategy_factory.py", PC + "bs_permanent_calculator_factory.py"],
     [("type-to-constructor mapping and deep copies of the calculator", SS + "simulation_strategy_factory.py")],
     ["class and law of the generated objects"])

prop("C21", "Estimated distributions are the sample frequencies, aligned with their outcomes",
     "For every strategy and configuration the sample-based calculator draws exactly the configured (or explicitly given) number of samples for the configured input state and returns, for each outcome in the order it reports, the fraction of those samples equal to that outcome; samples outside the list are ignored but still count in the denominator. For every distribution calculator, computing the distribution equals computing the probabilities of the outcomes it reports, in the same order.",
     ["inputs", "configurations", "histories"], "all sample streams, sample numbers, outcome lists and re-configurations; all distribution calculators",
     "Tests only use the result inside a loose distance check and always pass the number of samples explicitly.",
     [DC + "bs_sample_based_distribution_calculator.py", DC + "bs_appriximated_distribution_from_separable_states_calculator.py", "theboss/boson_sampling_simulator.py"],
     [("counting loop", DC + "bs_sample_based_distribution_calculator.py: calculate_approximate_distribution")],
     ["return values, arguments received by the strategy"])

prop("C22", "Distances and statistical bounds obey their definitions",
     "The total variation distance of two distributions, given as lists or as dictionaries with missing entries counting as zero, is half the sum of absolute differences: symmetric, 0 only for equal distributions, at most 1, and obeying the triangle inequality. The distance of two matrices is the Frobenius norm of their difference. The error bound for a number of samples is the square root of (outcomes*ln2 + ln(1/error probability)) / (2*samples), the minimal number of samples for a distance is the smallest integer strictly above the inverse of that formula, and prime factors are primes whose product is the given number.",
     ["inputs"], "all pairs and triples of distributions; all outcome numbers, error probabilities, distances and integers above 1",
     "No test looks at these functions directly.",
     [QC], [("formulas", QC)], ["return values"])

prop("C23", "Distributions computed up to an accuracy are partial exact distributions",
     "For every unitary, input state, transmissivity and accuracy, the uniform-loss sampler's accumulated distribution terminates with total weight at least the accuracy, and every entry is either still zero or exactly the probability of its outcome in the enumeration order; at accuracy 1 it is the complete exact lossy distribution. The unweighted variant does the same with each particle-number sector normalised separately.",
     ["inputs", "schedules", "histories"], "all unitaries, inputs, transmissivities in (0, 1], accuracies; all random exploration orders; repeated calls",
     "Not tested at all.",
     [SS + "generalized_cliffords_uniform_losses_simulation_strategy.py"],
     [("pmf layers written into the distribution as they are discovered", SS + "generalized_cliffords_uniform_losses_simulation_strategy.py: _calculate_new_layer_of_pmfs")],
     ["return values of compute_distribution_up_to_accuracy and compute_unweighted_distribution_up_to_accuracy"])

prop("C24", "Samples drawn by parallel workers are complete and independent",
     "For the strategies and calculators that use worker processes, real parallel runs return the same results (for calculators) or samples from the same law (for samplers) as sequential ones, for any number of workers and samples. Different workers never replay the same random numbers, so no block of samples is a copy of another worker's block.",
     ["schedules", "configurations", "inputs"], "all worker counts, sample counts, scheduling orders of workers",
     "Frequency tests do not notice duplicated blocks, and the results of a pool are never compared with a sequential run.",
     [SS + "nonuniform_losses_approximation_strategy.py", SS + "lossy_state_approximated_simulation_strategy.py", DC + "bs_exact_distribution_with_uniform_losses.py"],
     [("spawned process pool, ordered map", SS + "lossy_state_approximated_simulation_strategy.py: simulate; nonuniform_losses_approximation_strategy.py: simulate")],
     ["lists returned by simulate()/calculate_distribution() in real multi-process runs"])

prop("C25", "Samples within one call are independent and identically distributed",
     "For every strategy, the samples returned by one simulate call are independent draws from the same law: the joint law of any two (or more) samples of a call is the product of the single-sample laws. In particular random phases, losses, particle orders and cached probabilities are redrawn or reused so that no sample influences another.",
     ["schedules", "inputs"], "all strategies, inputs, pairs of samples in a call; all random choices",
     "Frequencies of pooled samples cannot reveal correlations, and the tests never look at pairs.",
     [SS + f for f in ("fixed_loss_simulation_strategy.py", "uniform_loss_simulation_strategy.py", "generalized_cliffords_simulation_strategy.py", "generalized_cliffords_b_simulation_strategy.py", "nonuniform_losses_approximation_strategy.py", "lossy_state_approximated_simulation_strategy.py")],
     [("per-sample redraw of phases, losses and orders", SS)],
     ["joint law of the samples returned by simulate()"])

prop("C26", "Fourier and random-phase matrices act on the leading modes only",
     "For every size, the quantum Fourier matrix is the unitary with entries exp(2*pi*i*j*k/n)/sqrt(n), and its embedding acts as that matrix on the first m of all modes and as the identity on the rest. The random-phase matrix is diagonal and unitary with an independent uniformly random phase on each of the first m modes and 1 on all the others, drawn afresh on every call. What callers do with a returned matrix never influences later results.",
     ["inputs", "schedules"], "all m and total mode numbers (m = 0, 1, all); all random draws",
     "Tests use one size with m equal to all modes, where the identity block is empty.",
     [BSU, QC], [("power table and block embedding", QC + ": compute_qft_matrix; " + BSU + ": generate_qft_matrix_for_first_m_modes, generate_random_phases_matrix_for_first_m_modes")],
     ["return values"])

prop("C27", "The R wrapper passes the experiment through faithfully",
     "Given an R back end that samples mode assignments numbered from 1, the Clifford R strategy hands it the first n columns of the current matrix in R's column-major layout together with the requested number of samples, and returns the samples one by one as occupation vectors over all modes. Its probability look-ups return for each requested (or first seen) outcome the probability the back end reported for it, and changing the matrix affects all later calls.",
     ["inputs", "histories", "schedules"], "all matrices, standard inputs, sample numbers and back-end answers",
     "The test module is skipped without rpy2 and R.",
     [SS + "cliffords_r_simulation_strategy.py", SS + "simulation_strategy_factory.py"],
     [("matrix transposition and index shift", SS + "cliffords_r_simulation_strategy.py")],
     ["arguments received by the back end, return values"])

prop("C28", "Ill-sized permanent problems are refused, smaller ones use the leading modes",
     "Whenever the matrix is not square, the input and the output state have different numbers of modes, or they have more modes than the matrix, the Ryser and the Chin-Huh calculator raise AttributeError instead of returning a number, whatever was computed before, and assigning a fitting matrix and states afterwards makes them return the right permanent again. For every permanent and submatrix-permanent method, two states of equal length with fewer modes than the matrix refer to its leading modes: the result is the one for the leading square block.",
     ["inputs", "histories"], "all numbers of rows, columns and modes of the two states; all orders of assigning and computing",
     "No test computes with sizes that do not fit, or with states over fewer modes than the matrix.",
     [PC + "bs_permanent_calculator_base.py", PC + "ryser_permanent_calculator.py", PC + "chin_huh_permanent_calculator.py"],
     [("size test before every computation", PC + "bs_permanent_calculator_base.py: _can_calculation_be_performed, compute_permanent")],
     ["exception or return value of compute_permanent()/compute_permanents()"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P), "properties")
