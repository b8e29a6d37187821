"""C27: the wrapper of the R implementation, against a stand-in for rpy2 / R."""
import math
import random
import sys
import types

import numpy as np

import core
import drive
import mats
from core import Case
from props import Prop, prop
from sampling import err


class RMatrix:
    """An R matrix: values in column-major order."""

    def __init__(self, flat, nrow, ncol):
        self.flat, self.nrow, self.ncol = flat, nrow, ncol


def _vals(x):
    if isinstance(x, np.ndarray):
        x = x.reshape(x.size)          # as rpy2 takes sequences
    return [complex(v) for v in x]


def r_matrix(data, nrow=None, ncol=None, byrow=False, **kw):
    v = _vals(data)
    if nrow is None and ncol is None:
        nrow, ncol = len(v), 1
    elif nrow is None:
        nrow = len(v) // int(ncol)
    elif ncol is None:
        ncol = len(v) // int(nrow)
    nrow, ncol = int(nrow), int(ncol)
    if byrow:
        v = [v[r * ncol + c] for c in range(ncol) for r in range(nrow)]
    return RMatrix(v, nrow, ncol)


BACKEND = [None]


def boson_sampler(A, sampleSize=1, perm=False):
    return BACKEND[0](A, int(sampleSize), bool(perm))


def install_stub():
    if "rpy2" in sys.modules:
        return
    rpy2 = types.ModuleType("rpy2")
    ro = types.ModuleType("rpy2.robjects")
    pk = types.ModuleType("rpy2.robjects.packages")
    vec = types.ModuleType("rpy2.robjects.vectors")
    for name in ("ComplexVector", "FloatVector", "IntVector"):
        cls = type(name, (list,), {"__init__": lambda self, x=(): list.__init__(self, list(x))})
        setattr(ro, name, cls)
        setattr(vec, name, cls)

    class R:
        matrix = staticmethod(r_matrix)

        def __getitem__(self, name):
            return getattr(self, name)
    ro.r = R()
    ro.packages = pk
    ro.vectors = vec
    pkg = types.SimpleNamespace(bosonSampler=boson_sampler)
    pk.importr = lambda name, *a, **k: pkg
    pk.isinstalled = lambda name, *a, **k: True
    rpy2.robjects = ro
    rpy2.__path__ = []
    ro.__path__ = []
    sys.modules.update({"rpy2": rpy2, "rpy2.robjects": ro, "rpy2.robjects.packages": pk,
                        "rpy2.robjects.vectors": vec})


def flat_of(A, M):
    """The received matrix in units of the specification."""
    out = []
    for x, v in enumerate(A.flat):
        c = x // A.nrow if A.nrow else 0
        d = M.d[c] if c < M.m else 1
        a, b, dev = drive.gauss(v, math.sqrt(d))
        out.append([a, b] if dev < 2000 else [2 ** 29, dev])
    return out


def expected_flat(M, n):
    return [list(M.g[i][j]) for j in range(n) for i in range(M.m)]


def r_session(mids, script, seed, via, cont):
    """script: ["mat", i] / ["sim", S, k] / ["find", S, outcomes] / ["rand", S, count]."""
    install_stub()
    from theboss.simulation_strategies.cliffords_r_simulation_strategy import CliffordsRSimulationStrategy
    rnd = random.Random(seed)
    cur = mids[0]
    evs = []
    try:
        if via == "factory":
            M = core.ZOO[cur]
            cfg = drive.config(M, [1] + [0] * (M.m - 1), container=cont)
            st = drive.SimulationStrategyFactory(
                cfg, drive.PERMS["ryser"](M.np(), [0] * M.m, [0] * M.m),
                drive.StrategyType.CLIFFORD_R).generate_strategy()
        else:
            st = CliffordsRSimulationStrategy(core.ZOO[cur].np(cont))
    except Exception as e:
        return [{"op": "rcall", "err": err(e)}]
    for step in script:
        M = core.ZOO[cur]
        m = M.m
        if step[0] == "mat":
            cur = mids[step[1]]
            try:
                st.set_matrix(core.ZOO[cur].np(cont))
            except Exception as e:
                evs.append({"op": "rcall", "err": err(e)})
            continue
        S = step[1]
        n = sum(S)
        arg = drive.state(S, step[3])
        if step[0] == "sim":
            k = step[2]
            ev = {"op": "rcall", "mat": cur, "S": list(S), "k": k, "flat": [], "nrow": -1, "ncol": -1, "size": -1,
                  "back": [], "res": [], "err": ""}
            seen = []

            def backend(A, size, perm):
                back = [rnd.randint(1, m) for _ in range(size * A.ncol)]
                seen.append((A, size, back))
                return back, 0, 0
            BACKEND[0] = backend
            try:
                res = drive.canon_all(st.simulate(arg, k) if k > 1 or rnd.random() < .5 else st.simulate(arg))
                ev["res"] = [list(x) for x in res]
                if seen:                        # in one call or in several
                    A = seen[0][0]
                    ev.update(flat=flat_of(A, M), nrow=A.nrow, ncol=A.ncol, size=sum(s for _, s, _ in seen),
                              back=[x for _, _, b in seen for x in b])
                    if any(flat_of(x, M) != ev["flat"] for x, _, _ in seen[1:]):
                        ev["nrow"] = -2
            except Exception as e:
                ev["err"] = err(e)
            ev["mut"] = int(list(arg) != list(S))
            evs.append(ev)
            continue
        # probability look-ups: a law on a few outcomes, in hundredths
        space = mats.states(n, m)
        rnd.shuffle(space)
        sup = space[:rnd.randint(1, min(len(space), 6))]
        cuts = sorted(rnd.sample(range(1, 100), len(sup) - 1))
        pm = {T: b - a for T, a, b in zip(sup, [0] + cuts, cuts + [100])}
        calls, matok = [], [1]
        want = expected_flat(M, n)
        order = []

        def backend(A, size, perm):
            if not (A.nrow == m and A.ncol == n and flat_of(A, M) == want and size == 1):
                matok[0] = 0
            if len(calls) > 3000:
                raise RuntimeError("the look-up does not stop")
            if not order:
                order.extend(sup)
                rnd.shuffle(order)
            T = order.pop()
            a = [j + 1 for j in range(m) for _ in range(T[j])]
            rnd.shuffle(a)
            calls.append([list(a), pm[T]])
            return a, [1.5], [pm[T] / 100]
        BACKEND[0] = backend
        ev = {"op": "rprob", "mat": cur, "calls": calls, "res": [], "asked": [], "kind": "all", "matok": 1, "err": ""}
        try:
            if step[0] == "find":
                ask = rnd.sample(sup, rnd.randint(1, len(sup)))
                ev["asked"], ev["kind"] = [list(x) for x in ask], "asked"
                res = st.find_probabilities(arg, [drive.state(x, rnd.choice(["tuple", "list"])) for x in ask])
            else:
                res = st.find_probabilities_of_n_random_states(arg, rnd.randint(1, len(sup)))
            for key, p in res.items():
                N, dev = mats.rat(float(p), 100)
                ev["res"].append([list(drive.canon(key)), N if dev < 1000 else -1])
        except Exception as e:
            ev["err"] = err(e)
        ev["matok"] = matok[0]
        ev["mut"] = int(list(arg) != list(S))
        evs.append(ev)
    return evs


@prop("C27")
class C27(Prop):
    bounds = ("histories of 1..6 calls (samples, look-ups, matrix changes) on exact matrices m<=5, n<=4<=m, "
              "1..600 samples per call, against a stand-in back end returning arbitrary assignments")
    assumptions = ("rpy2 and R are not available here: the back end is a stand-in with R's conventions "
                   "(column-major matrices, modes numbered from 1)",
                   "at least one particle and one sample per call, at most one particle per leading mode column")

    def cases(self, run, rnd, thorough):
        out = []
        for rep in range(1200 if thorough else 360):
            m = rnd.choice([1, 2, 3, 3, 4, 5])
            ms = [run.zoo.id(mats.unitary(m, rnd) if rnd.random() < .6 else mats.general(m, rnd)) for _ in range(3)]
            script = []
            for _ in range(rnd.randint(1, 6)):
                x = rnd.random()
                n = rnd.randint(1, min(m, 4))
                S = (1,) * n + (0,) * (m - n)
                if rnd.random() < .3:
                    S = rnd.choice(mats.states(n, m))
                how = rnd.choice(["list", "tuple", "array"])
                if x < .2:
                    script.append(["mat", rnd.randrange(3)])
                elif x < .6:
                    script.append(["sim", S, rnd.choice([1, 2, 3, 5, 12, 12, 40, 100, 250, 600]), how])
                elif x < .8:
                    script.append(["find", S, 0, how])
                else:
                    script.append(["rand", S, 0, how])
            script.append(["sim", (1,) + (0,) * (m - 1), 3, "list"])
            args = (ms, script, rnd.randrange(10 ** 6), "factory" if rep % 5 == 0 else "direct",
                    rnd.choice(["array", "list"]))
            if rep % 3 == 0:                     # another wrapper in the same process
                out.append(Case(core.chain, ((r_session, (ms[::-1],) + args[1:]), (r_session, args)), "r.%ds" % rep))
            else:
                out.append(Case(r_session, args, "r.%d" % rep))
        return out
