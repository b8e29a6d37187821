"""Everything the checks need of theboss, through its public classes only."""
import math

import numpy as np

import rng
import pools

rng.install()
pools.install()

from theboss.boson_sampling_utilities import boson_sampling_utilities as bsu          # noqa: E402
from theboss import quantum_computations_utilities as qcu                             # noqa: E402
from theboss.boson_sampling_simulator import BosonSamplingSimulator                   # noqa: E402
from theboss.boson_sampling_utilities.permanent_calculators.bs_permanent_calculator_factory import (  # noqa: E402
    BSPermanentCalculatorFactory, PermanentCalculatorType)
from theboss.boson_sampling_utilities.permanent_calculators.classic_permanent_calculator import ClassicPermanentCalculator  # noqa: E402,E501
from theboss.boson_sampling_utilities.permanent_calculators.glynn_gray_permanent_calculator import GlynnGrayPermanentCalculator  # noqa: E402,E501
from theboss.boson_sampling_utilities.permanent_calculators.chin_huh_permanent_calculator import ChinHuhPermanentCalculator  # noqa: E402,E501
from theboss.boson_sampling_utilities.permanent_calculators.ryser_permanent_calculator import RyserPermanentCalculator  # noqa: E402,E501
from theboss.boson_sampling_utilities.permanent_calculators.bs_cc_ch_submatrices_permanent_calculator import BSCCCHSubmatricesPermanentCalculator  # noqa: E402,E501
from theboss.boson_sampling_utilities.permanent_calculators.bs_cc_ryser_submatrices_permanent_calculator import BSCCRyserSubmatricesPermanentCalculator  # noqa: E402,E501
from theboss.distribution_calculators.bs_distribution_calculator_interface import BosonSamplingExperimentConfiguration  # noqa: E402,E501
from theboss.distribution_calculators.bs_distribution_calculator_with_fixed_losses import BSDistributionCalculatorWithFixedLosses  # noqa: E402,E501
from theboss.distribution_calculators.bs_exact_distribution_with_uniform_losses import BSDistributionCalculatorWithUniformLosses  # noqa: E402,E501
from theboss.distribution_calculators.bs_sample_based_distribution_calculator import BSSampleBasedDistributionCalculator  # noqa: E402,E501
from theboss.distribution_calculators.bs_appriximated_distribution_from_separable_states_calculator import BSApproximatedLossyDistributionCalculator  # noqa: E402,E501
from theboss.network_simulation_strategy.lossless_network_simulation_strategy import LosslessNetworkSimulationStrategy  # noqa: E402,E501
from theboss.network_simulation_strategy.lossy_network_simulation_strategy import LossyNetworkSimulationStrategy  # noqa: E402,E501
from theboss.simulation_strategies.fixed_loss_simulation_strategy import FixedLossSimulationStrategy  # noqa: E402
from theboss.simulation_strategies.generalized_cliffords_b_simulation_strategy import GeneralizedCliffordsBSimulationStrategy  # noqa: E402,E501
from theboss.simulation_strategies.generalized_cliffords_b_uniform_losses_simulation_strategy import GeneralizedCliffordsBUniformLossesSimulationStrategy  # noqa: E402,E501
from theboss.simulation_strategies.generalized_cliffords_simulation_strategy import GeneralizedCliffordsSimulationStrategy  # noqa: E402,E501
from theboss.simulation_strategies.generalized_cliffords_uniform_losses_simulation_strategy import GeneralizedCliffordsUniformLossesSimulationStrategy  # noqa: E402,E501
from theboss.simulation_strategies.lossy_networks_generalized_cliffords_simulation_strategy import LossyNetworksGeneralizedCliffordsSimulationStrategy  # noqa: E402,E501
from theboss.simulation_strategies.lossy_state_approximated_simulation_strategy import LossyStateApproximationSimulationStrategy  # noqa: E402,E501
from theboss.simulation_strategies.mode_assignment_generalized_cliffords_simulation_strategy import ModeAssignmentGeneralizedCliffordsSimulationStrategyInterface  # noqa: E402,E501
from theboss.simulation_strategies.nonuniform_losses_approximation_strategy import NonuniformLossesApproximationStrategy  # noqa: E402,E501
from theboss.simulation_strategies.simulation_strategy_factory import SimulationStrategyFactory, StrategyType  # noqa: E402,E501
from theboss.simulation_strategies.simulation_strategy_interface import SimulationStrategyInterface  # noqa: E402
from theboss.simulation_strategies.uniform_loss_simulation_strategy import UniformLossSimulationStrategy  # noqa: E402

PERMS = {"classic": ClassicPermanentCalculator, "glynn": GlynnGrayPermanentCalculator,
         "chinhuh": ChinHuhPermanentCalculator, "ryser": RyserPermanentCalculator}
SUBS = {"cch": BSCCCHSubmatricesPermanentCalculator, "ccryser": BSCCRyserSubmatricesPermanentCalculator}
PERM_TYPES = {"classic": PermanentCalculatorType.CLASSIC, "glynn": PermanentCalculatorType.GLYNN,
              "chinhuh": PermanentCalculatorType.CHIN_HUH, "ryser": PermanentCalculatorType.RYSER}
STRAT_TYPES = {"fixed": StrategyType.FIXED_LOSS, "usep": StrategyType.UNIFORM_LOSS,
               "gcc": StrategyType.GCC, "lnet": StrategyType.LOSSY_NET_GCC,
               "gccu": StrategyType.UNIFORM_LOSSES_GCC, "nonu": StrategyType.BOBS,
               "lstate": StrategyType.UNIFORM_LOSSES_BOBS,
               "other": StrategyType.LOSSLESS_MODES_STRATEGY}


def state(S, how):
    """The state S in one of the sequence types users pass."""
    if how == "list":
        return [int(x) for x in S]
    if how == "tuple":
        return tuple(int(x) for x in S)
    if how == "array":
        return np.array(S, dtype=int)
    if how == "int64":
        return np.array(S, dtype=np.int64)
    if how == "int32":
        return np.array(S, dtype=np.int32)
    if how == "nplist":
        return [np.int64(x) for x in S]
    raise ValueError(how)


def config(mat, S, eta=1.0, left=None, level=0, container="array", net=None, how="list"):
    n = sum(S)
    left = n if left is None else left
    return BosonSamplingExperimentConfiguration(
        interferometer_matrix=mat.np(container), initial_state=state(S, how),
        initial_number_of_particles=n, number_of_modes=len(S),
        number_of_particles_lost=n - left, number_of_particles_left=left,
        uniform_transmissivity=eta, network_simulation_strategy=net, hierarchy_level=level)


def calculator(kind, matrix, S=None, T=None):
    cls = PERMS.get(kind) or SUBS[kind]
    return cls(matrix, S, T)


def perm_calc(perm, M, m, S=None):
    """A permanent calculator as callers hand it over: "ryser" with states of the right size,
    "ryser/none" with the matrix only, "ryser/left" with the states of an earlier computation."""
    name, _, how = perm.partition("/")
    if how == "none":
        return PERMS[name](M)
    if how == "left":
        T = [1] * m if m < 3 else [2] + [0] * (m - 2) + [1]
        calc = PERMS[name](M, list(T), list(reversed(T)))
        calc.compute_permanent()
        return calc
    S = [0] * m if S is None else list(S)
    return PERMS[name](M, S, list(S))


def strategy(kind, mat, m, perm="ryser", eta=(1, 1), level=0, a=0, l=0, threads=1,
             container="array", net=None):
    """A freshly built strategy of the given kind."""
    f = eta[0] / eta[1]
    M = mat.np(container)
    if kind == "fixed":
        return FixedLossSimulationStrategy(M, l, m, net)
    if kind == "usep":
        return UniformLossSimulationStrategy(M, m, f)
    calc = perm_calc(perm, M, m)
    if kind == "gcc":
        return GeneralizedCliffordsSimulationStrategy(calc)
    if kind == "gccma":
        return ModeAssignmentGeneralizedCliffordsSimulationStrategyInterface(calc)
    if kind == "gccb":
        return GeneralizedCliffordsBSimulationStrategy(calc)
    if kind == "gccu":
        return GeneralizedCliffordsUniformLossesSimulationStrategy(calc, f)
    if kind == "gccbu":
        return GeneralizedCliffordsBUniformLossesSimulationStrategy(calc, f)
    if kind == "lnet":
        return LossyNetworksGeneralizedCliffordsSimulationStrategy(calc)
    if kind == "nonu":
        return NonuniformLossesApproximationStrategy(calc, a, threads)
    if kind == "lstate":
        return LossyStateApproximationSimulationStrategy(calc, f, level, threads)
    raise ValueError(kind)


class Facade:
    """A strategy used through BosonSamplingSimulator."""

    def __init__(self, strat):
        self.strat = strat
        self.sim = BosonSamplingSimulator(strat)

    def simulate(self, *args):
        return self.sim.get_classical_simulation_results(*args)

    def set_new_matrix(self, M):
        self.strat.set_new_matrix(M)


def poison(x, depth=0):
    """What a caller may do with a result it owns: overwrite and empty it."""
    try:
        if isinstance(x, np.ndarray):
            if x.dtype == object:
                for y in x.flat:
                    poison(y, depth + 1)
            if x.flags.writeable and x.size:
                x.fill(7)
        elif isinstance(x, dict):
            x.clear()
        elif isinstance(x, (list, tuple)):
            if depth < 3:
                for y in x:
                    if isinstance(y, (list, tuple, np.ndarray)):
                        poison(y, depth + 1)
            if isinstance(x, list):
                if x and depth == 0:
                    x.reverse()
                    del x[len(x) // 2:]
                elif x:
                    x[0] = 77
    except Exception:
        pass


BADSAMPLE = (-1,)


def canon(sample):
    """A sample as a tuple of ints; anything else as a marker."""
    try:
        out = []
        for x in sample:
            if isinstance(x, (bool, np.bool_)):
                return BADSAMPLE
            if isinstance(x, (complex, np.complexfloating)):
                if x.imag != 0:
                    return BADSAMPLE
                x = x.real
            i = int(x)
            if i != x or abs(i) > 10 ** 6:
                return BADSAMPLE
            out.append(i)
        return tuple(out)
    except (TypeError, ValueError, OverflowError):
        return BADSAMPLE


def canon_all(samples):
    if not isinstance(samples, (list, tuple, np.ndarray)):
        return None
    return tuple(canon(x) for x in samples)


def residues(x, primes=(32749, 32719, 32717, 32713, 32707, 32693, 32687, 32653)):
    """An integer value of any size, as residues; -1s for a non-integer."""
    try:
        if isinstance(x, np.ndarray) and x.shape == ():
            x = x.item()
        i = int(x)
        if i != x:
            return [-1] * len(primes)
        return [i % p for p in primes]
    except (TypeError, ValueError, OverflowError):
        return [-1] * len(primes)


def small_int(x):
    try:
        i = int(x)
        return i if i == x and abs(i) < 2 ** 30 else -(2 ** 30)
    except (TypeError, ValueError, OverflowError):
        return -(2 ** 30)


def gauss(z, scale):
    """(re, im, deviation in 1e-9) of z*scale rounded to a Gaussian integer."""
    z = complex(z) * scale
    if not (math.isfinite(z.real) and math.isfinite(z.imag)) or abs(z) > 4e8:
        return (2 ** 29 + 1, 2 ** 29 + 1, 2 ** 29)
    a, b = int(round(z.real)), int(round(z.imag))
    dev = max(abs(z.real - a), abs(z.imag - b))
    return (a, b, int(dev * 1e9))
