"""C11-C18, C25: laws of the samplers."""
import copy
import math
import os
import random

import numpy as np

import core
import drive
import mats
import rng
import sampling
from core import Case
from props import Prop, prop
from sampling import err, sim_event, samples_event

HOWS = ["list", "tuple", "array", "int64", "nplist"]
PERMS = ["ryser", "ryser", "chinhuh", "glynn", "ryser/none", "ryser/left", "glynn/none", "chinhuh/left", "classic",
         "classic/left"]
ETAS = [(0, 1), (1, 1), (1, 2), (1, 4), (3, 4), (1, 3), (1, 2), (2, 3), (999, 1000), (1, 1000)]
LOSSLESS = ("gcc", "gccma", "gccb")


def attempt():
    return int(os.environ.get("BOSS_ATTEMPT", "0"))


def rec_of(kind, mid, eta=(1, 1), a=0, l=0, level=0):
    return {"kind": kind, "mat": mid, "eta": list(eta), "a": a, "l": l, "level": level}


def builder(rec, perm, threads=1, cont="array", net=None, facade=False):
    M = core.ZOO[rec["mat"]]

    def make():
        n = None
        if net == "lossless":
            n = drive.LosslessNetworkSimulationStrategy(M.np())
        elif net == "lossy":
            n = drive.LossyNetworkSimulationStrategy(M.np())
        st = drive.strategy(rec["kind"], M, M.m, perm, tuple(rec["eta"]), rec["level"], rec["a"],
                            rec["l"], threads, cont, n)
        return drive.Facade(st) if facade else st
    return make


def den(rec, S):
    return mats.den_kind(rec["kind"], core.ZOO[rec["mat"]], S, tuple(rec["eta"]), rec["a"], rec["l"], rec["level"])


class Decoy:
    """Another strategy of the same kind living in the same process: what it computes must
    never reach the strategy under examination."""

    def __init__(self, kind, M, S, rnd, rec):
        m = M.m
        self.when = rnd.choice(["before", "before", "between"])
        self.S = S if rnd.random() < .6 else rnd.choice(mats.states(sum(S), m)) if m < 6 else tuple(reversed(S))
        if rnd.random() < .2 and m < 6:                # another size
            m = max(1, m + rnd.choice([-1, 1]))
            n = sum(S) if kind not in ("fixed", "usep") else min(m, sum(S))
            self.S = rnd.choice(mats.states(n, m))
        n = sum(self.S)
        if m > 5 or n > 4:
            self.M = mats.sparse(m, rnd, 1)
        elif rnd.random() < .15 and m == M.m:
            self.M = M                                 # only the parameters differ
        else:
            self.M = rand_matrix(kind, rnd, m)
        f = rand_rec(kind, rnd, m)
        if kind == "fixed":
            f["l"] = rnd.randint(0, n)
        for x in list(f):
            if rnd.random() < .4 and (x != "l" or rec[x] <= n):
                f[x] = rec[x]
        if "eta" in f and rnd.random() < .5:           # a nearly equal transmissivity
            x = rec["eta"][0] / rec["eta"][1]
            d = rnd.choice([1e-3, 3e-3, 1e-2, .05]) * rnd.choice([-1, 1])
            f["eta"] = (x + d if 0 <= x + d <= 1 else x - d, 1)
        self.rec = dict(rec_of(kind, 0, **f))
        self.k = rnd.choice([1, 2, 3])
        self.threads = rnd.choice([1, 1, 2])

    def make(self, perm):
        r = self.rec
        return drive.strategy(r["kind"], self.M, self.M.m, perm, tuple(r["eta"]), r["level"], r["a"], r["l"],
                              self.threads)

    def use(self, perm, strat=None, k=None):
        act, rng.ACTIVE = rng.ACTIVE, None
        try:
            (strat or self.make(perm)).simulate(list(self.S), k or self.k)
        except Exception:                              # not the object under examination
            pass
        finally:
            rng.ACTIVE = act


def with_decoy(make, decoy, perm):
    if decoy is None:
        return make
    if decoy.when == "before":
        decoy.use(perm)
        return make

    def both():
        st = make()
        decoy.use(perm, k=1)
        return st
    return both


def pick_decoy(kind, M, S, rnd, rec, p=.5):
    return Decoy(kind, M, S, rnd, rec) if rnd.random() < p else None


def law_session(rec, perm, threads, cont, net, S, how, kw):
    """The law of one fresh strategy."""
    evs = [{"op": "snew", "o": "s", "rec": rec, "err": ""}]
    kw = dict(kw)
    make = builder(rec, perm, threads, cont, net, kw.pop("facade", False))
    decoy = kw.pop("decoy", None)
    try:
        make()
    except Exception as e:
        evs[0]["err"] = err(e)
        return evs
    kw["seed"] = kw.get("seed", 1) + 7777 * attempt()
    make = with_decoy(make, decoy, perm)
    q = (rec["l"] if rec["kind"] == "fixed" else sum(S)) + 1      # enough for the phases' degree
    evs.append(sim_event("s", make, S, D=den(rec, S), q=max(q, 2), how=how, **kw))
    return evs


def rand_eta(rnd):
    return rnd.choice(ETAS)


class Law(Prop):
    kinds = ()
    assumptions = ("random choices reach the code through random / numpy.random module functions or "
                   "generators; where a use cannot be followed symbolically the law is tested statistically "
                   "(error probability below 1e-10, confirmed twice)",)

    def pick(self, kind, rnd, big):
        """A random (matrix, rec fields, S); or None."""
        raise NotImplementedError

    def opts(self, kind, rnd):
        return dict(perm=rnd.choice(PERMS), threads=1, cont=rnd.choice(["array", "array", "list"]), net=None)

    def special(self, run, rnd, thorough):
        return []

    def count(self, kind, thorough):
        return 300 if thorough else 60

    def cases(self, run, rnd, thorough):
        out = []
        for kind in self.kinds:
            made = tries = 0
            while made < self.count(kind, thorough) and tries < 20000:
                tries += 1
                got = self.pick(kind, rnd, thorough)
                if got is None:
                    continue
                M, f, S = got
                if rnd.random() < .12 and M.m > 1:        # a very weak coupling
                    n = rnd.choice([1, 1, 2])
                    M, S = mats.tiny(M.m, rnd, n), rnd.choice(mats.states(n, M.m))
                    f = dict(f, **({"l": rnd.randint(0, n)} if "l" in f else {}))
                rec = rec_of(kind, 1, **f)
                if mats.den_kind(kind, M, S, tuple(rec["eta"]), rec["a"], rec["l"], rec["level"]) > mats.LIMIT:
                    continue
                rec["mat"] = run.zoo.id(M)
                o = self.opts(kind, rnd)
                kw = {"seed": rnd.randrange(10 ** 6), "max_paths": 40000 if thorough else 6000}
                if rnd.random() < .15:
                    kw["facade"] = True
                kw["decoy"] = pick_decoy(kind, M, S, rnd, rec)
                if kind == "lstate" and 0 < rec["level"] < M.m:
                    kw["numonly"] = True
                out.append(Case(law_session, (rec, o["perm"], o["threads"], o["cont"], o["net"], S,
                                              rnd.choice(HOWS), kw), "%s.%d" % (kind, made), cpu=150))
                made += 1
            for i in range(self.large_count(thorough)):
                got = self.large(kind, rnd, thorough)
                while got is None:
                    got = self.large(kind, rnd, thorough)
                M, f, S = got
                rec = rec_of(kind, run.zoo.id(M), **f)
                o = self.opts(kind, rnd)
                o["perm"] = rnd.choice(["ryser", "chinhuh", "glynn"]) if sum(S) > 4 else o["perm"]
                kw = {"seed": rnd.randrange(10 ** 6), "max_paths": 60000 if thorough else 8000, "sparse": True,
                      "ns": 4000, "decoy": pick_decoy(kind, M, S, rnd, rec, .3)}
                if kind == "lstate" and 0 < rec["level"]:
                    kw["numonly"] = rec["level"] < M.m
                    del kw["sparse"]                     # the verdict knows the permuted columns
                out.append(Case(law_session, (rec, o["perm"], o["threads"], o["cont"], o["net"], S,
                                              rnd.choice(HOWS), kw), "%s.large%d" % (kind, i), cpu=150))
        return out + self.special(run, rnd, thorough)

    def large_count(self, thorough):
        return 100 if thorough else 14

    def large(self, kind, rnd, big):
        """Many modes or many particles, with few couplings."""
        deep = rnd.random() < .5
        lossy = kind in ("lnet", "nonu", "fixed", "usep") and rnd.random() < .5
        m = rnd.randint(3, 8) if deep else rnd.randint(6, 12)
        n = rnd.randint(5, 7 if big else 6) if deep else rnd.randint(1, 3)
        f, mixing = {}, 4
        if kind in ("gccb", "gccbu", "gccu"):
            n = min(n, 6 if big else 5)
        if kind == "lnet":
            n, mixing = min(n, 5), 3
            m = min(m, 9)
        if kind in ("gccu", "gccbu", "usep", "lstate"):
            f["eta"] = rand_eta(rnd)
        if kind == "nonu":
            n = rnd.choice([1, 1, 2, 3, 4])
            m = rnd.randint(4, 9)
            f["a"] = rnd.choice([0, 1, 2, 3 if n < 3 else 0, 4 if n == 1 else 1])
        if kind in ("fixed", "usep"):
            n = rnd.choice([1, 2, 2, 3, 4])
            if kind == "fixed":
                f["l"] = rnd.randint(0, n)
            top = f.get("l", n)                          # a phase per mode
            m = max(n, min(m, {0: 12, 1: 12 if big else 9, 2: 8 if big else 6}.get(top, 5 if big else 4)))
        if kind == "lstate":
            f["level"] = rnd.choice([0, m, rnd.randint(1, m)])
            if f["level"] == 0:
                n, m = rnd.choice([(1, rnd.choice([5, 6])), (2, 4)]) if big else (1, 4)
            elif f["level"] == m:
                m, n = 4, rnd.randint(1, 2)
                f["level"] = m
            elif not big:
                n, m = min(n, 3), min(m, 5)
                f["level"] = rnd.randint(1, m - 1)
        M = mats.sparse(m, rnd, rnd.choice([0, 1, 1, 2]), lossy)
        S = mats.large_state(rnd, m, n, M, mixing)
        if kind == "lstate" and f["level"] == m:         # no deviation by the permuted columns
            S = (1,) * m if rnd.random() < .3 else S
        rec = rec_of(kind, 1, **f)
        if mats.den_kind(kind, M, S, tuple(rec["eta"]), rec["a"], rec["l"], rec["level"]) > mats.LIMIT:
            return None
        return M, f, S


def small_state(rnd, m, top, kind=""):
    n = rnd.randint(0, top)
    return rnd.choice(mats.states(n, m))


@prop("C11")
class C11(Law):
    kinds = LOSSLESS
    bounds = ("complete enumeration of the random choices: exact unitaries m<=4 (5), n<=4; "
              "statistics with 20000 samples at n=5,6")

    def pick(self, kind, rnd, big):
        m = rnd.choice([1, 2, 2, 3, 3, 3, 4, 4] + ([5] if big else []))
        M = mats.unitary(m, rnd) if rnd.random() < .92 else mats.perm_mat(rnd.sample(range(m), m))
        top = {1: 5, 2: 4, 3: 4, 4: 3, 5: 3}[m]
        return M, {}, small_state(rnd, m, top)

    def special(self, run, rnd, thorough):
        out = (wide_laws(self.kinds, run, rnd, thorough) + bunched_laws(self.kinds, run, rnd, thorough)
               + crowded_laws(self.kinds, run, rnd, thorough))
        for kind in self.kinds:
            for rep in range(6 if thorough else 2):
                while True:
                    m = rnd.choice([3, 4, 4])
                    n = rnd.choice([4, 5, 5, 6])
                    M = mats.unitary(m, rnd)
                    S = rnd.choice(mats.states(n, m))
                    rec = rec_of(kind, run.zoo.id(M))
                    if den_of(M, S) <= mats.LIMIT and max(S) <= 3:
                        break
                out.append(Case(law_session, (rec, rnd.choice(["ryser", "chinhuh"]), 1, "array", None, S, "list",
                                              {"stat": True, "seed": rnd.randrange(10 ** 6), "ns": 20000}),
                                "%s.stat%d" % (kind, rep), cpu=150))
        return out


RARE = [(1, 16), (15, 16), (1, 64), (63, 64), (1, 128), (127, 128), (255, 256)]


def wide_laws(kinds, run, rnd, thorough):
    """More modes than a byte can number."""
    out = []
    for kind in kinds:
        for rep in range(6 if thorough else 2):
            m, n = rnd.choice([(129, 1), (140, 2), (150, 1), (160, 2)])
            if kind in ("gccu", "gccbu"):
                n = 1
            f = {"eta": rnd.choice([(1, 1), (1, 2), (3, 4)])} if kind in ("gccu", "gccbu") else {}
            M, S = mats.wide_perm(m, rnd), mats.wide_state(m, n, rnd)
            out.append(Case(law_session, (rec_of(kind, run.zoo.id(M), **f), "ryser", 1, "array", None, S,
                                          rnd.choice(HOWS), {"sparse": True, "seed": rnd.randrange(10 ** 6), "ns": 4000}),
                            "%s.wide%d" % (kind, rep), cpu=150))
    return out


def bunched_laws(kinds, run, rnd, thorough):
    """Many particles in one mode, and one or two elsewhere."""
    out = []
    for kind in kinds:
        menu = [(6, 1), (1, 6), (7, 1), (1, 7), (5, 2), (2, 6), (7, 0), (0, 8)]
        rnd.shuffle(menu)
        for rep, S in enumerate(menu if thorough else menu[:3]):
            M = rnd.choice([mats.bs, mats.hadamard])()
            f = {"eta": rnd.choice([(1, 1), (1, 2)])} if kind in ("gccu", "gccbu") else {}
            if len(f) and f["eta"] != (1, 1):
                S = rnd.choice([(6, 0), (5, 1), (1, 5), (0, 6), (6, 1)])
            if mats.den_kind(kind, M, S, **f) > mats.LIMIT:
                continue
            out.append(Case(law_session, (rec_of(kind, run.zoo.id(M), **f), rnd.choice(["ryser", "chinhuh", "glynn"]), 1,
                                          "array", None, S, rnd.choice(HOWS),
                                          {"seed": rnd.randrange(10 ** 6), "max_paths": 20000, "ns": 12000,
                                           "stat": kind in ("gccb", "gccbu")}),
                            "%s.bunched%d" % (kind, rep), cpu=150))
    return out


def crowded_laws(kinds, run, rnd, thorough):
    """More particles than small tables and short integers can hold, in one or two modes."""
    out = []
    for kind in kinds:
        for rep in range(10 if thorough else 3):
            n = rnd.choice([13, 14, 16, 18, 20, 21, 22, 24, 26])
            if rep == 0:
                n = rnd.choice([24, 26, 27])
            if kind in ("gccb", "gccbu"):         # Ryser's sums cancel: beyond this rounding errors show
                n = min(n, rnd.choice([13, 16, 18]))
            S = rnd.choice([(n,), (n, 0), (0, n), (n - 1, 1), (1, n - 1), (n - 2, 2)] if rep else [(n - 1, 1), (1, n - 1), (2, n - 2)])
            f = {}
            if kind in ("gccu", "gccbu"):
                f["eta"] = rnd.choice([(1, 1), (1, 2), (1, 2), (0, 1)])
            m = len(S)
            M = mats.perm_mat(rnd.sample(range(m), m))
            out.append(Case(law_session, (rec_of(kind, run.zoo.id(M), **f), "chinhuh", 1, "array", None, S, rnd.choice(HOWS),
                                          {"sparse": True, "seed": rnd.randrange(10 ** 6), "ns": 2000, "max_paths": 20000}),
                            "%s.crowded%d" % (kind, rep), cpu=150))
    return out


def den_of(M, S):
    return mats.den_exact(M, S)


@prop("C12")
class C12(Law):
    kinds = ("gccu", "gccbu")
    bounds = "complete enumeration: exact unitaries m<=4, n<=4, eta in {0,1/1000,1/4,1/3,1/2,2/3,3/4,999/1000,1}"

    def count(self, kind, thorough):
        return 300 if thorough else 80

    def pick(self, kind, rnd, big):
        m = rnd.choice([1, 2, 2, 3, 3, 4] + ([5] if big else []))
        top = {1: 5, 2: 4, 3: 3, 4: 3, 5: 2}[m]
        if rnd.random() < .1:                           # losing or keeping is very rare
            return mats.simple(m, rnd), {"eta": rnd.choice(RARE)}, rnd.choice(mats.states(min(3, top), m))
        return mats.unitary(m, rnd), {"eta": rand_eta(rnd)}, small_state(rnd, m, top)

    def special(self, run, rnd, thorough):
        return (wide_laws(self.kinds, run, rnd, thorough) + bunched_laws(self.kinds, run, rnd, thorough)
                + crowded_laws(self.kinds, run, rnd, thorough))


@prop("C13")
class C13(Law):
    kinds = ("lnet",)
    bounds = "complete enumeration: exact lossy (before/after/inside) and unitary matrices m<=3 (4), n<=3"

    def count(self, kind, thorough):
        return 900 if thorough else 260

    def pick(self, kind, rnd, big):
        m = rnd.choice([1, 2, 2, 3, 3] + ([4] if big else []))
        r = rnd.random()
        if r < .1:
            M = mats.unitary(m, rnd)
        elif r < .18:
            M = mats.near(mats.simple(m, rnd), rnd)
            return M, {}, rnd.choice(mats.states(rnd.choice([1, 1, 2]), m))
        elif r < .28:
            M = mats.weak(m, rnd)
            return M, {}, small_state(rnd, m, 2) if max(M.d) < 15000 else rnd.choice(mats.states(1, m))
        elif r < .35:
            M = mats.col_loss(mats.unitary(m, rnd), [rnd.choice(mats.AMPS[:3])] * m)
        else:
            M = mats.lossy(m, rnd)
        return M, {}, small_state(rnd, m, {1: 4, 2: 3, 3: 3, 4: 2}[m])

    def special(self, run, rnd, thorough):
        out = []
        for i in range(300 if thorough else 90):         # change of the matrix
            m = rnd.choice([2, 3])
            while True:
                A, B = mats.lossy(m, rnd), mats.lossy(m, rnd)
                S = small_state(rnd, m, 2)
                if i % 2:                               # to a nearly equal one
                    A = mats.simple(m, rnd)
                    B = mats.near(A, rnd)
                    if rnd.random() < .3:
                        A, B = B, mats.near(A, rnd)
                    elif rnd.random() < .3:
                        A, B = B, A
                if sum(S) and max(den_of(A, S), den_of(B, S)) < mats.LIMIT:
                    break
            out.append(Case(setmatrix_session, ("lnet", run.zoo.id(A), run.zoo.id(B), S, rnd.choice(HOWS),
                                                rnd.choice(PERMS), rnd.randrange(10 ** 6), i // 2 % 2),
                            "lnet.set%d" % i))
        return out


def setmatrix_session(kind, ma, mb, S, how, perm, seed, before):
    rec = rec_of(kind, ma)
    evs = [{"op": "snew", "o": "s", "rec": rec, "err": ""}]
    first = builder(rec, perm)

    def make():
        act, rng.ACTIVE = rng.ACTIVE, None
        try:
            rng.seed_real(seed)
            st = first()
            if before:
                st.simulate(drive.state(S, how), 2)
            st.set_new_matrix(core.ZOO[mb].np())
        finally:
            rng.ACTIVE = act
        return st
    ev = {"op": "sset", "o": "s", "f": "mat", "v": mb, "err": ""}
    try:
        make()
    except Exception as e:
        ev["err"] = err(e)
        return evs + [ev]
    evs.append(ev)
    evs.append(sim_event("s", make, S, D=den_of(core.ZOO[mb], S), q=2, how=how, seed=seed + 7777 * attempt()))
    return evs


@prop("C14")
class C14(Law):
    kinds = ("nonu",)
    bounds = ("complete enumeration incl. random phases (root-of-unity grid): unitary and lossy matrices m<=3, "
              "n<=3, numbers of approximated modes -1..m+1, threads 1..3; statistics at larger n")

    def count(self, kind, thorough):
        return 320 if thorough else 90

    def opts(self, kind, rnd):
        o = Law.opts(self, kind, rnd)
        o["threads"] = rnd.choice([1, 1, 1, 2, 2, 3, -1, 0, 100])
        return o

    def pick(self, kind, rnd, big):
        m = rnd.choice([1, 2, 2, 3])
        r = rnd.random()
        if r < .03:                       # nothing gets through
            return mats.col_loss(mats.identity(m), [(0, 1)] * m), {"a": rnd.randint(-1, m + 1)}, small_state(rnd, m, 2)
        if r < .1:                        # hardly anything gets through
            M = mats.unitary(m, rnd, 9) if rnd.random() < .5 else mats.perm_mat(rnd.sample(range(m), m))
            return (mats.col_loss(M, [rnd.choice([(1, 8), (1, 16), (1, 12)])] * m), {"a": rnd.randint(-1, m + 1)},
                    rnd.choice(mats.states(rnd.choice([1, 1, 2]), m)))
        if r > .85:
            return mats.weak(m, rnd), {"a": rnd.randint(-1, m + 1)}, rnd.choice(mats.states(1, m))
        M = (mats.unitary(m, rnd) if r < .3 else
             mats.col_loss(mats.unitary(m, rnd), [rnd.choice(mats.AMPS[:3])] * m) if r < .5 else mats.lossy(m, rnd))
        a = rnd.randint(-1, m + 1)
        S = small_state(rnd, m, {1: 3, 2: 2, 3: 2}[m])
        return M, {"a": a}, S


@prop("C15")
class C15(Law):
    kinds = ("lstate",)
    bounds = "complete enumeration: unitaries m<=3, n<=3, levels 0..m, eta in {0,1/1000,1/4,1/3,1/2,2/3,3/4,999/1000,1}, threads 1..3"

    def count(self, kind, thorough):
        return 320 if thorough else 80

    def opts(self, kind, rnd):
        o = Law.opts(self, kind, rnd)
        o["threads"] = rnd.choice([1, 1, 1, 2, 2, 3, -1, 0, 100])
        return o

    def pick(self, kind, rnd, big):
        m = rnd.choice([1, 2, 2, 3])
        level = rnd.randint(0, m)
        if rnd.random() < .4:
            level = m
        S = small_state(rnd, m, {1: 4, 2: 3, 3: 3 if level == m else 2}[m])
        if level == m and rnd.random() < .4:
            S = (rnd.randint(0, {1: 4, 2: 2, 3: 1}[m]),) * m
        return mats.unitary(m, rnd), {"eta": rand_eta(rnd), "level": level}, S


@prop("C16")
class C16(Law):
    kinds = ("fixed", "usep")
    bounds = "complete enumeration incl. random phases: unitary and lossy matrices m<=3, n<=3"

    def count(self, kind, thorough):
        return 260 if thorough else 70

    def opts(self, kind, rnd):
        o = Law.opts(self, kind, rnd)
        if kind == "fixed":
            o["net"] = rnd.choice([None, None, "lossy", "lossless"])
        return o

    def pick(self, kind, rnd, big):
        m = rnd.choice([1, 2, 2, 3, 3])
        r = rnd.random()
        M = mats.unitary(m, rnd) if r < .5 else mats.lossy(m, rnd)
        if r > .85:
            M = mats.weak(m, rnd)
            return M, ({"l": 1} if kind == "fixed" else {"eta": rand_eta(rnd)}), rnd.choice(mats.states(1, m))
        n = rnd.randint(1, m)
        S = rnd.choice(mats.states(n, m))
        l = rnd.randint(0, n)
        if kind == "fixed":
            return M, {"l": l}, S
        return M, {"eta": rand_eta(rnd)}, S


ALL = ("gcc", "gccma", "gccb", "gccu", "gccbu", "lnet", "nonu", "lstate", "fixed", "usep")


def rand_rec(kind, rnd, m):
    f = {}
    if kind in ("gccu", "gccbu", "usep", "lstate"):
        f["eta"] = rand_eta(rnd)
    if kind == "nonu":
        f["a"] = rnd.randint(0, m)
    if kind == "lstate":
        f["level"] = rnd.randint(0, m)
    return f


def rand_matrix(kind, rnd, m):
    if kind in ("lnet", "nonu", "fixed", "usep") and rnd.random() < .6:
        return mats.lossy(m, rnd)
    return mats.unitary(m, rnd)


def count_session(rec, perm, threads, cont, net, calls, seed):
    """calls: list of (S, k, how); the strategy is rebuilt for each.  k = 0.5: no number given."""
    evs = []
    rng.seed_real(seed)
    if isinstance(threads, list):
        for t in threads:
            evs += count_session(rec, perm, t, cont, net, calls, seed)
        return evs
    for i, (S, k, how) in enumerate(calls):
        make = builder(rec, perm, threads, cont, net, (i + seed) % 3 == 0)
        ev = {"op": "snew", "o": "s", "rec": rec, "err": ""}
        try:
            st = make()
        except Exception as e:
            ev["err"] = err(e)
            return evs + [ev]
        evs.append(ev)
        evs.append(samples_event("s", st, S, k, how))
    return evs


@prop("C17")
class C17(Law):
    kinds = ALL
    bounds = ("0..40 samples for every strategy, random matrices m<=5, n<=5 (separable n<=m), 1..5 worker "
              "threads; well-formedness of every outcome over all random choices is part of the law checks too")

    def cases(self, run, rnd, thorough):
        out = []
        for kind in ALL:
            for rep in range(90 if thorough else 24):
                m = rnd.choice([1, 2, 3, 4, 5])
                M = rand_matrix(kind, rnd, m)
                f = rand_rec(kind, rnd, m)
                top = min(m, 4) if kind in ("fixed", "usep") else 4
                net = None
                if kind == "fixed":
                    f["l"] = rnd.randint(0, top)
                    if rep % 2:
                        net = rnd.choice(["lossy", "lossless"])
                calls = []
                ks = [0, 1, 2, 3, 7, 8, 9, rnd.randint(1, 40)]
                for k in rnd.sample(ks, 5):
                    n = rnd.randint(f.get("l", 0), top)
                    if kind in ("fixed", "usep"):
                        n = max(n, 1)
                    calls.append((rnd.choice(mats.states(n, m)), k, rnd.choice(HOWS)))
                if kind != "fixed" or f["l"] == 0:
                    calls.append(((0,) * m, 3, rnd.choice(HOWS)))
                calls.append((calls[0][0], 0.5, rnd.choice(HOWS)))
                out.append(Case(count_session, (rec_of(kind, run.zoo.id(M), **f), rnd.choice(PERMS),
                                                rnd.choice([1, 2, 3, 4, 5, -1, 0, 100]), rnd.choice(["array", "list"]), net,
                                                calls, rnd.randrange(10 ** 6)), "%s.%d" % (kind, rep)))
            for rep in range(16 if thorough else 4):      # many samples
                m = 2
                M = mats.simple(m, rnd)
                f = rand_rec(kind, rnd, m)
                if kind == "fixed":
                    f["l"] = rnd.randint(0, 1)
                ks = rnd.sample([63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513], 5)
                ks += rnd.sample([999, 1000, 1001, 1023, 1024, 1025, 1999, 2000, 2048, 2500, 3001], 2)
                calls = [(rnd.choice([(1, 0), (0, 1)] + ([(1, 1)] if k < 600 else [])), k, rnd.choice(HOWS)) for k in ks]
                out.append(Case(count_session, (rec_of(kind, run.zoo.id(M), **f), rnd.choice(PERMS[:8]),
                                                rnd.choice([1, 2, 3, 4, 5]), "array", None, calls,
                                                rnd.randrange(10 ** 6)), "%s.many%d" % (kind, rep)))
            if kind in ("nonu", "lstate"):               # workers against samples
                m = 2
                for a in range(m + 1):
                    f = dict(rand_rec(kind, rnd, m), **({"a": a} if kind == "nonu" else {"level": a}))
                    S = rnd.choice([(1, 1), (2, 0), (0, 1), (1, 2)])
                    calls = [(S, k, "list") for k in list(range(0, 13)) + [16, 17, 25, 31, 0.5]]
                    out.append(Case(count_session, (rec_of(kind, run.zoo.id(mats.simple(m, rnd)), **f), "ryser",
                                                    [1, 2, 3, 4, 5, 6, 8, -1, 1000], "array", None, calls,
                                                    rnd.randrange(10 ** 6)), "%s.grid%d" % (kind, a)))
        return out


# ---------------------------------------------------------------------------
def history_session(rec, perm, threads, hist, mids, states, how, seed, share, decoy=None):
    """hist: list of ["sim", state index, k] / ["mat", index]; the law of the last call
    is enumerated in the state the real object has reached."""
    evs = [{"op": "snew", "o": "s", "rec": rec, "err": ""}]
    make = builder(rec, perm, threads, facade=seed % 4 == 0)

    def run_history(upto, log):
        act, rng.ACTIVE = rng.ACTIVE, None
        try:
            rng.seed_real(seed)
            st = make()
            other = None
            if decoy is not None:
                try:
                    other = decoy.make(perm)
                except Exception:
                    pass
            shared = {}
            buf = None
            for h in hist[:upto]:
                if h[0] == "mat":
                    A = core.ZOO[mids[h[1] - 1]].np()
                    w = copy.deepcopy(A)
                    ev = {"op": "sset", "o": "s", "f": "mat", "v": mids[h[1] - 1], "err": ""}
                    try:
                        st.set_new_matrix(A)
                    except Exception as e:
                        ev["err"] = err(e)
                    ev["mut"] = int(not np.array_equal(A, w))
                else:
                    S = states[h[1] - 1]
                    if share == 2:                # the same object, refilled by the caller
                        if buf is None or len(buf) != len(S):
                            buf = drive.state(S, how if how not in ("tuple",) else "array")
                        for i, x in enumerate(S):
                            buf[i] = x
                        arg = buf
                    elif share:
                        arg = shared.setdefault(h[1], drive.state(S, how))
                    else:
                        arg = drive.state(S, how)
                    ev = samples_event("s", st, S, h[2], how, arg=arg)
                    if share == 1 and list(arg) != list(S):
                        ev["mut"] = 1
                        shared[h[1]] = drive.state(S, how)
                if log is not None:
                    log.append(ev)
                if other is not None:
                    decoy.use(perm, other)
            return st
        finally:
            rng.ACTIVE = act
    try:
        st = run_history(len(hist), evs)
    except Exception as e:
        evs[0]["err"] = err(e)
        return evs
    try:
        again = sampling.snapshot(st)
    except Exception:
        def again():
            return run_history(len(hist), None)
    mid = rec["mat"]
    for h in hist:
        if h[0] == "mat":
            mid = mids[h[1] - 1]
    cur = dict(rec, mat=mid)
    if rec["kind"] == "lstate" and 0 < rec["level"] < core.ZOO[mid].m:
        for S in dict.fromkeys(states):       # the law itself is not specified here, but a fresh object has it too
            if len(S) == core.ZOO[mid].m:
                evs += same_law(again, make, S, how)
    for S in states:
        if len(S) != core.ZOO[mid].m:
            continue
        D = den(cur, S)
        if D > mats.LIMIT:
            continue
        evs.append(sim_event("s", again, S, D=D, q=sum(S) + 1, how=how, seed=seed + 7777 * attempt(),
                             max_paths=3000, numonly=rec["kind"] == "lstate" and 0 < rec["level"] < core.ZOO[mid].m))
    return evs


def same_law(used, fresh, S, how):
    """The laws of a used and of a fresh object, if both can be enumerated."""
    import time
    res = []
    for make in (used, fresh):
        try:
            law, _ = rng.enumerate_law(lambda: drive.canon_all(make().simulate(drive.state(S, how), 1)), q=sum(S) + 1,
                                       max_paths=2500, deadline=time.process_time() + 6)
        except Exception:                     # judged by the other events
            return []
        # an unusual unit: no probability lies half-way between two multiples of it
        res.append([[[list(T) for T in (key or ())], int(p * 7390851.3321516 + .1737)]
                    for key, p in sorted(law.items(), key=lambda x: repr(x[0])) if p > 1e-6])
    return [{"op": "sameas", "err": "", "a": res[0], "b": res[1]}]


def gen_histories(kind, n_states, n_mats, depth, num, seed, ks):
    import json
    import tempfile
    import tlc
    menu = {"states": n_states, "mats": n_mats, "depth": depth, "ks": ks}
    fd, path = tempfile.mkstemp(prefix="boss_menu_", suffix=".json")
    with os.fdopen(fd, "w") as f:
        json.dump(menu, f)
    try:
        return tlc.simulate("GenStrat", "GenStrat.cfg", num, depth + 1, seed, env={"BOSS_MENU": path})
    finally:
        os.unlink(path)


SETTABLE = ("gcc", "gccma", "gccb", "gccu", "gccbu", "lnet")


@prop("C18")
class C18(Law):
    kinds = ALL
    relative = ("KF-permuted-columns",)
    bounds = ("histories of up to 5 simulate / set-matrix calls generated by the specification, then the law of the "
              "next call is enumerated completely for every input of the menu (m<=3, n<=3)")

    def cases(self, run, rnd, thorough):
        out = []
        per = 60 if thorough else 14
        with_m, st1 = gen_histories("x", 3, 2, 5, per * len(SETTABLE), rnd.randrange(10 ** 6), [0, 1, 2, 3])
        without, st2 = gen_histories("x", 3, 0, 4, per * 4, rnd.randrange(10 ** 6), [0, 1, 2])
        run.transitions += st1["generated"] + st2["generated"]
        rnd.shuffle(with_m)
        rnd.shuffle(without)
        for kind in ALL:
            for rep in range(per):
                m = rnd.choice([2, 2, 3])
                for _ in range(10000):
                    ms = [rand_matrix(kind, rnd, m) for _ in range(3 if kind in SETTABLE else 1)]
                    f = rand_rec(kind, rnd, m)
                    if kind in ("fixed", "usep"):
                        n = rnd.randint(1, m)
                        sts = [rnd.choice(mats.states(n, m)) for _ in range(3)]
                        if kind == "usep":
                            sts[2] = rnd.choice(mats.states(1, m))
                        f["l"] = rnd.randint(0, n) if kind == "fixed" else 0
                    else:
                        top = 2 if kind in ("nonu", "lstate", "lnet") or m == 3 else 3
                        sts = [rnd.choice(mats.states(rnd.randint(1, top), m)) for _ in range(3)]
                        if rnd.random() < .3:
                            sts[2] = (0,) * m
                        if rnd.random() < .4:
                            sts[1] = tuple(reversed(sts[0]))
                    if rep % (2 if kind == "lstate" else 4) == 1 and kind not in ("fixed", "usep"):       # more particles, simple networks
                        m = rnd.choice([3, 3, 4])
                        ms = [mats.perm_mat(rnd.sample(range(m), m)) for _ in range(3 if kind in SETTABLE else 1)]
                        if kind in ("lnet", "nonu"):
                            ms = [mats.col_loss(M, [rnd.choice([(1, 1), (1, 2), (1, 2)]) for _ in range(m)]) for M in ms]
                        f = rand_rec(kind, rnd, m)
                        if "eta" in f:
                            f["eta"] = rnd.choice([(1, 1), (1, 2), (1, 2), (1, 4)])
                        if "a" in f:
                            f["a"] = rnd.choice([0, 1, 1, 2])
                        if "level" in f:
                            f["level"] = rnd.choice([m, m, m - 1, m - 1])
                        n = rnd.choice([2, 3, 4] if m == 3 else [3, 4])
                        if kind in ("lnet", "nonu"):
                            n = rnd.choice([2, 3])
                        sp = mats.states(n, m)
                        sts = [rnd.choice(sp)]
                        alike = [x for x in sp if x != sts[0] and max(x) == max(sts[0])]
                        other = [x for x in alike if sorted(x) != sorted(sts[0])]
                        sts.append(rnd.choice(other or alike or sp))
                        sts.append(rnd.choice([rnd.choice(sp), tuple(sorted(sts[0])), tuple(reversed(sts[0]))]))
                    r0 = rec_of(kind, 1, **f)
                    if all(mats.den_kind(kind, M, S, tuple(r0["eta"]), r0["a"], r0["l"], r0["level"]) <= mats.LIMIT
                           for M in ms for S in sts):
                        break
                mids = [run.zoo.id(M) for M in ms]
                src = with_m if kind in SETTABLE else without
                h = src[rep % len(src)] if kind not in SETTABLE else src[(rep + 97 * ALL.index(kind)) % len(src)]
                out.append(Case(history_session, (rec_of(kind, mids[0], **f), rnd.choice(PERMS), rnd.choice([1, 2]),
                                                  h, mids[1:] or mids, sts, rnd.choice(HOWS),
                                                  rnd.randrange(10 ** 6), rnd.randrange(3),
                                                  pick_decoy(kind, ms[0], sts[-1], rnd, rec_of(kind, 1, **f), .4)),
                                "%s.h%d" % (kind, rep)))
        for kind in SETTABLE:                              # networks of another size
            for rep in range(16 if thorough else 5):
                for _ in range(10000):
                    a, b = rnd.choice([(1, 2), (2, 3), (3, 2), (2, 1), (3, 1), (1, 3)])
                    ms = [rand_matrix(kind, rnd, x) for x in (a, b, a)]
                    f = rand_rec(kind, rnd, min(a, b))
                    n = rnd.choice([1, 1, 2])
                    sts = [rnd.choice(mats.states(n if i != 2 else rnd.randint(1, 2), x)) for x in (a, b) for i in range(3)]
                    r0 = rec_of(kind, 1, **f)
                    if all(mats.den_kind(kind, M, S, tuple(r0["eta"]), r0["a"], r0["l"], r0["level"]) <= mats.LIMIT
                           for M in ms for S in sts if len(S) == M.m):
                        break
                now, h = a, []
                for step in with_m[rnd.randrange(len(with_m))] + [["mat", 1], ["sim", 1, 1]] * (rep % 2):
                    if step[0] == "mat":
                        now = ms[step[1]].m
                        h.append(step)
                    else:
                        h.append(["sim", step[1] + (0 if now == a else 3), step[2]])
                mids = [run.zoo.id(M) for M in ms]
                out.append(Case(history_session, (rec_of(kind, mids[0], **f), rnd.choice(PERMS), rnd.choice([1, 2]), h,
                                                  mids[1:], sts, rnd.choice(HOWS), rnd.randrange(10 ** 6),
                                                  rnd.randrange(3)), "%s.resize%d" % (kind, rep)))
        for rep in range(60 if thorough else 14):          # some modes exact: full, empty and mixed parts in turn
            m, level = rnd.choice([(2, 1), (2, 1), (3, 1), (3, 2)])
            front, back = mats.states(rnd.choice([1, 2]), level), mats.states(1, m - level)
            sts = [rnd.choice(front) + (0,) * (m - level), (0,) * level + rnd.choice(back),
                   rnd.choice(mats.states(1, level)) + rnd.choice(back)]
            h = [["sim", i, rnd.choice([1, 2])] for i in rnd.choice([[1], [2], [1, 2], [1, 3], [3, 2], [3, 1], [2, 1]])]
            M = mats.unitary(m, rnd, 9)
            out.append(Case(history_session, (rec_of("lstate", run.zoo.id(M), level=level, eta=rnd.choice([(1, 1), (1, 2), (3, 4)])),
                                              rnd.choice(PERMS), rnd.choice([1, 2]), h, [run.zoo.id(M)], sts, rnd.choice(HOWS),
                                              rnd.randrange(10 ** 6), rnd.randrange(3)), "lstate.part%d" % rep))
        return out


def pair_session(rec, perm, threads, S, how, seed, k=2, decoy=None):
    evs = [{"op": "snew", "o": "s", "rec": rec, "err": ""}]
    make = builder(rec, perm, threads, facade=seed % 5 == 0)
    try:
        make()
    except Exception as e:
        evs[0]["err"] = err(e)
        return evs
    make = with_decoy(make, decoy, perm)
    evs.append(sim_event("s", make, S, k=k, D=den(rec, S), q=sum(S) * 1 + 1, how=how, max_paths=12000, cpu=40,
                         seed=seed + 7777 * attempt(), ns=4000))
    return evs


def worst_lag(got):
    """The distance at which samples are alike most unusually often or rarely (judged by the
    specification)."""
    ids = {}
    a = np.array([ids.setdefault(x, len(ids)) for x in got], dtype=int)
    k = len(a)
    c = float(np.sum((np.bincount(a) / k) ** 2)) if k else 0
    best, where = -1.0, 0
    for lag in range(1, k):
        i = np.arange(k - lag)
        i = i[i % (2 * lag) < lag]
        n = len(i) // 500 * 500
        if n == 0:
            continue
        i = i[:n]
        z = abs(float(np.sum(a[i] == a[i + lag])) - n * c) / math.sqrt(n)
        if z > best:
            best, where = z, lag
    return where


def long_session(rec, perm, threads, S, how, seed, calls):
    """Many samples in one or several calls: no stretch of them occurs twice, samples at any
    distance are independent, and the whole as well as every part of them follows the law."""
    rng.seed_real(seed + 7777 * attempt())
    evs = [{"op": "snew", "o": "s", "rec": rec, "err": ""}]
    try:
        st = builder(rec, perm, threads, facade=seed % 5 == 0)()
    except Exception as e:
        evs[0]["err"] = err(e)
        return evs
    got = []
    for c in calls:
        ev = samples_event("s", st, S, c, how)
        evs.append(ev)
        if ev["err"]:
            return evs
        got += [tuple(x) for x in ev["r"]["list"]]
    k = len(got)
    freq = {}
    for x in got:
        freq[x] = freq.get(x, 0) + 1 / max(1, len(got))
    top = max([.01, max(freq.values(), default=1), sum(p * p for p in freq.values())])
    w = math.ceil(64 / -math.log2(min(top, .9999)))
    evs.append({"op": "sim", "o": "s", "S": list(S), "err": "", "mut": 0,
                "r": {"mode": "lag", "D": den(rec, S), "list": [list(x) for x in got], "lag": worst_lag(got),
                      "w": w if w <= 200 else 0}})
    for lo, hi in ((0, k // 2), (k // 2, k), (3 * k // 4, k)):
        part = got[lo:hi]
        part = part[:len(part) // 500 * 500]
        cnt = {}
        for x in part:
            cnt[x] = cnt.get(x, 0) + 1
        evs.append({"op": "sim", "o": "s", "S": list(S), "err": "", "mut": 0,
                    "r": {"mode": "stat", "D": den(rec, S), "ns": len(part), "alt": 0, "k": 1,
                          "cnt": [[[list(T)], c] for T, c in sorted(cnt.items())]}})
    return evs


@prop("C25")
class C25(Law):
    kinds = ALL
    relative = ("KF-permuted-columns",)
    bounds = ("joint law of the samples of calls for two (m<=3, n<=2) and for three and four (m=2, n<=2) samples, "
              "completely enumerated")

    def cases(self, run, rnd, thorough):
        out = []
        for rep in range(20 if thorough else 5):           # the order of the columns is drawn anew for every sample
            M = mats.perm_mat(rnd.sample(range(2), 2)) if rep % 3 else mats.hadamard()
            rec = rec_of("lstate", run.zoo.id(M), level=2, eta=rnd.choice([(1, 1), (1, 2)]))
            S = rnd.choice([(1, 0), (0, 1)])
            out.append(Case(pair_session, (rec, rnd.choice(PERMS), rnd.choice([1, 1, 2]), S, rnd.choice(HOWS),
                                           rnd.randrange(10 ** 6), rnd.choice([2, 2, 3])), "lstate.columns%d" % rep, cpu=150))
        for kind in ALL:
            made = tries = 0
            while made < (56 if thorough else 14) and tries < 40000:
                tries += 1
                k = 2 if made % 7 < 5 else 3 if made % 7 == 5 or kind in ("nonu", "lstate") else 4
                m = rnd.choice([1, 2, 2, 3] if kind not in ("nonu", "lstate") else [1, 2, 2])
                if k > 2:
                    m = 2
                M = rand_matrix(kind, rnd, m)
                f = rand_rec(kind, rnd, m)
                n = rnd.randint(1, 2)
                if k > 2:
                    n = rnd.choice([1, 1, 1, 2])
                if kind in ("fixed", "usep"):
                    n = min(n, m)
                    f["l"] = rnd.randint(1, n) if kind == "fixed" else 0
                if kind == "lstate":
                    f["level"] = rnd.choice([m, m, 0])
                S = rnd.choice(mats.states(n, m))
                if kind == "lstate" and f["level"]:
                    S = (1,) * m if m < 3 else (1, 0, 0)
                rec = rec_of(kind, 1, **f)
                d = mats.den_kind(kind, M, S, tuple(rec["eta"]), rec["a"], rec["l"], rec["level"])
                if d ** k > mats.LIMIT:
                    continue
                rec["mat"] = run.zoo.id(M)
                out.append(Case(pair_session, (rec, rnd.choice(PERMS), rnd.choice([1, 2, 3]), S, rnd.choice(HOWS),
                                               rnd.randrange(10 ** 6), k, pick_decoy(kind, M, S, rnd, rec, .3)),
                                "%s.x%d.%d" % (kind, k, made), cpu=150))
                made += 1
            for rep in range(8 if thorough else 2):
                while True:
                    m = rnd.choice([3, 4]) if kind not in ("nonu", "lnet") else 3
                    n = rnd.choice([2, 3]) if kind not in ("nonu", "lnet") else 2
                    M = rand_matrix(kind, rnd, m)
                    f = rand_rec(kind, rnd, m)
                    S = rnd.choice(mats.states(n, m))
                    if "eta" in f:
                        f["eta"] = rnd.choice([(1, 2), (3, 4), (2, 3)])
                    if kind == "fixed":
                        f["l"] = n
                    if kind == "lstate":
                        f["level"] = 0
                    rec = rec_of(kind, 1, **f)
                    d = mats.den_kind(kind, M, S, tuple(rec["eta"]), rec["a"], rec["l"], rec["level"])
                    if d <= mats.LIMIT and sum(sum(1 for x in row if x != (0, 0)) for row in M.g) > 2 * m - 2:
                        break
                rec["mat"] = run.zoo.id(M)
                out.append(Case(long_session, (rec, rnd.choice(PERMS[:8]), rnd.choice([1, 2, 4]), S, rnd.choice(HOWS),
                                               rnd.randrange(10 ** 6),
                                               rnd.choice([[4000], [4000], [1000] * 4, [100, 1900, 2000]])), "%s.long%d" % (kind, rep), cpu=150))
        return out
