"""C05-C08: state enumeration, representations, lossy inputs, types."""
import copy
import math

import numpy as np

import drive
import mats
from core import Case
from props import Prop, prop
from sampling import err

bsu = drive.bsu
HOWS = ["list", "tuple", "array", "int64", "nplist"]


def call(ev, f, *conv):
    """Runs f, which fills the event."""
    try:
        ev["err"] = ""
        f(ev)
    except Exception as e:
        ev["err"] = err(e)
    return ev


def rows(states):
    if not isinstance(states, (list, tuple)):
        return [[-7]]
    return [list(drive.canon(s)) for s in states]


def ev_states(n, m, losses, kw):
    def f(ev):
        if kw == 0:
            r = bsu.generate_possible_states(n, m, bool(losses))
        elif kw == 1:
            r = bsu.generate_possible_states(particles_number=n, modes_number=m, losses=bool(losses))
        else:
            r = bsu.generate_possible_states(n, m) if not losses else bsu.generate_possible_states(n, m, losses=True)
        ev["res"] = rows(r)
        drive.poison(r)
    return call({"op": "states", "n": n, "m": m, "losses": losses}, f)


def ev_dim(n, m, losses):
    def f(ev):
        ev["res"] = drive.residues(bsu.bosonic_space_dimension(n, m, bool(losses)))
    return call({"op": "dim", "n": n, "m": m, "losses": losses}, f)


def states_session(items):
    return [ev_states(*i) for i in items]


def dims_session(items):
    return [ev_dim(*i) for i in items]


@prop("C05")
class C05(Prop):
    bounds = ("all (n, m, losses) with at most 1300 states for n<=9, m<=9 (thorough 9000 states), impossible "
              "arguments, n up to 16 (thorough 30) on 2 and 3 modes; dimensions for all n, m <= 12 and random n, m up to 300")

    def cases(self, run, rnd, thorough):
        lim = 9000 if thorough else 3000
        small, out = [], []
        for n in range(0, 13 if thorough else 10):
            for m in range(1, 13 if thorough else 10):
                for losses in (0, 1):
                    if math.comb(n + m - (0 if losses else 1), n) <= lim:
                        small.append((n, m, losses, rnd.randrange(3)))
        small += [(n, m, l, rnd.randrange(3)) for n in (-3, -1, 0, 2) for m in (-2, 0) for l in (0, 1)]
        small += [(n, m, l, rnd.randrange(3)) for n in (-2, -1) for m in (1, 3) for l in (0, 1)]
        small += [(n, 1, l, 0) for n in (15, 40) for l in (0, 1)] + [(1, m, l, 0) for m in (15, 40, 130) for l in (0, 1)]
        # more particles (two-digit occupations) on few modes, few particles on many modes
        for n in range(10, 31 if thorough else 17):
            small += [(n, m, l, rnd.randrange(3)) for m in (2, 3) for l in (0, 1)
                      if math.comb(n + m - (0 if l else 1), n) <= lim]
        small += [(n, m, l, rnd.randrange(3)) for n, m in ((2, 17), (2, 25), (3, 12), (4, 10), (11, 4), (12, 2), (100, 2))
                  for l in (0, 1) if math.comb(n + m - (0 if l else 1), n) <= lim]
        rnd.shuffle(small)
        for k in range(0, len(small), 12):
            part = small[k:k + 12]
            # the results of the first round are overwritten by the caller before the second
            again = [(n, m, rnd.randrange(2) if rnd.random() < .3 else l, rnd.randrange(3)) for n, m, l, _ in part
                     if math.comb(max(n, 0) + max(m, 1), max(n, 0)) <= lim]
            out.append(Case(states_session, (part + again,), "states.%d" % k))
        dims = [(n, m, l) for n in range(13) for m in range(1, 13) for l in (0, 1)]
        for _ in range(400 if thorough else 120):
            dims.append((rnd.randint(10, 300), rnd.randint(2, 300), rnd.randrange(2)))
        for n, m in ((40, 60), (30, 60), (60, 30), (28, 28), (100, 100), (250, 20)):
            dims += [(n, m, 0), (n, m, 1)]
        rnd.shuffle(dims)
        for k in range(0, len(dims), 60):
            out.append(Case(dims_session, (dims[k:k + 60],), "dims.%d" % k))
        return out


# ---------------------------------------------------------------------------
def watch(x):
    return copy.deepcopy(x)


def same(a, b):
    return type(a) is type(b) and list(a) == list(b)


def ints(r):
    """A sequence of integers as a list; markers for anything else."""
    out = []
    for x in r:
        i = int(x)
        if i != x:
            return [-7]
        out.append(i)
    return out


def ev_toassign(S, how):
    arg = drive.state(S, how)
    w = watch(arg)

    def f(ev):
        r = bsu.mode_occupation_to_mode_assignment(arg)
        ev["res"] = ints(r)
        ev["mut"] = int(not same(arg, w))
        drive.poison(r)
    return call({"op": "toassign", "S": list(S)}, f)


def ev_toocc(a, m, how):
    arg = drive.state(a, how)
    w = watch(arg)

    def f(ev):
        r = bsu.mode_assignment_to_mode_occupation(arg, m) if m else bsu.mode_assignment_to_mode_occupation(arg)
        ev["res"] = ints(r)
        ev["mut"] = int(not same(arg, w))
        drive.poison(r)
    return call({"op": "toocc", "a": [int(x) for x in a], "m": m}, f)


def ev_round(S, how):
    """There and back: the result must be the start."""
    def f(ev):
        a = bsu.mode_occupation_to_mode_assignment(drive.state(S, how))
        b = ints(bsu.mode_assignment_to_mode_occupation(a, len(S)))
        c = bsu.mode_occupation_to_mode_assignment(b)
        ev["a"] = [list(S), ints(a)]
        ev["b"] = [b, ints(c)]
    return call({"op": "sameas"}, f)


def repr_session(items):
    evs = []
    for S, a, how in items:
        evs += [ev_toassign(S, how), ev_toocc(a, len(S), how), ev_round(S, how)]
        if a:
            evs.append(ev_toocc(a, 0, how))
    return evs


@prop("C06")
class C06(Prop):
    bounds = "all occupation vectors with n<=5 particles on m<=4 modes with a shuffled assignment each, random up to m=30, n=40, modes up to 400, occupations up to 300"

    def cases(self, run, rnd, thorough):
        items = []
        for m in (1, 2, 3, 4, 5) if thorough else (1, 2, 3, 4):
            for n in range(0, 7 if thorough else 6):
                for S in mats.states(n, m):
                    items.append((S, shuffled(S, rnd), rnd.choice(HOWS)))
        for _ in range(2000 if thorough else 500):
            m = rnd.randint(5, 30)
            S = [0] * m
            for _ in range(rnd.randint(0, 40)):
                S[rnd.randrange(m)] += 1
            items.append((tuple(S), shuffled(S, rnd), rnd.choice(HOWS)))
        for rep in range(60 if thorough else 30):
            m = rnd.choice([100, 130, 257, 300, 400])
            S = [0] * m
            for _ in range(rnd.randint(1, 20)):
                S[rnd.randrange(m)] += rnd.choice([1, 1, 2, 5])
            S[rnd.choice([m - 1, m - 1, rnd.randrange(m)])] += 1
            items.append((tuple(S), shuffled(S, rnd), rnd.choice(HOWS)))
        for n in (127, 128, 130, 255, 256, 300):
            S = [0] * rnd.randint(1, 4)
            S[rnd.randrange(len(S))] = n
            S[rnd.randrange(len(S))] += rnd.randint(0, 2)
            items.append((tuple(S), shuffled(S, rnd), rnd.choice(HOWS)))
        rnd.shuffle(items)
        return [Case(repr_session, (items[k:k + 60],), "repr.%d" % k) for k in range(0, len(items), 60)]


def shuffled(S, rnd):
    a = [i for i, s in enumerate(S) for _ in range(s)]
    rnd.shuffle(a)
    return a


# ---------------------------------------------------------------------------
def ev_lossyin(S, k, how):
    arg = drive.state(S, how)
    w = watch(arg)

    def f(ev):
        r = bsu.generate_lossy_n_particle_input_states(arg, k)
        ev["res"] = rows(r)
        ev["mut"] = int(not same(arg, w))
        drive.poison(r)
    return call({"op": "lossyin", "S": list(S), "k": k}, f)


def ev_lossyinall(S, how):
    def f(ev):
        cnt = []
        for k in range(sum(S) + 1):
            tot = 0
            for s in bsu.generate_lossy_n_particle_input_states(drive.state(S, how), k):
                tot += math.prod(math.comb(a, int(b)) for a, b in zip(S, s))
            cnt.append(tot)
        ev["cnt"] = cnt
    return call({"op": "lossyinall", "S": list(S)}, f)


def lossy_session(items):
    evs = []
    for S, how in items:
        evs += [ev_lossyin(S, k, how) for k in range(sum(S) + 1)]
        evs.append(ev_lossyinall(S, how))
    return evs


def big_lossy_session(S, k, how):
    return [ev_lossyin(S, k, how)]


@prop("C07")
class C07(Prop):
    bounds = "all inputs with n<=5 on m<=3 and n<=4 on m=4 (thorough n<=6) and all numbers left; random up to m=9, n=9; occupations of two digits (up to 300 where few are lost or left)"

    def cases(self, run, rnd, thorough):
        items = []
        for m in (1, 2, 3, 4):
            for n in range(0, (7 if m < 4 else 6) if thorough else (6 if m < 4 else 5)):
                items += [(S, rnd.choice(HOWS)) for S in mats.states(n, m)]
        for _ in range(250 if thorough else 60):
            m = rnd.randint(4, 9)
            n = rnd.randint(4, 10 if thorough else 9)
            S = [0] * m
            for _ in range(n):
                S[rnd.randrange(m)] += 1
            items.append((tuple(S), rnd.choice(HOWS)))
        # occupations of two digits
        for S in ((12,), (0, 11), (11, 1, 0), (1, 11, 1), (1, 0, 12), (2, 10)) + (((1, 10, 1, 1),) if thorough else ()):
            items.append((S, rnd.choice(HOWS)))
        rnd.shuffle(items)
        out = [Case(lossy_session, (items[k:k + 12],), "lossyin.%d" % k) for k in range(0, len(items), 12)]
        for rep in range(40 if thorough else 12):        # many modes
            m = rnd.choice([100, 129, 150, 257])
            n = rnd.randint(1, 4)
            S = mats.wide_state(m, n, rnd)
            out.append(Case(big_lossy_session, (S, rnd.randint(0, n), rnd.choice(HOWS)), "lossyin.wide%d" % rep))
        for S, k in (((10, 1, 10), 11), ((10, 1, 10), 10), ((10, 10), 11), ((11, 0, 10), 12), ((1, 10, 10), 11),
                     ((10, 10, 1), 11), ((18,), 9), ((40,), 3), ((40, 1), 39), ((130, 1), 2), ((1, 300, 1), 301)):
            out.append(Case(big_lossy_session, (S, k, rnd.choice(HOWS)), "lossyin.%s.%d" % ("_".join(map(str, S)), k)))
        return out


# ---------------------------------------------------------------------------
def ev_types(m, n, losses):
    def f(ev):
        r = bsu.generate_state_types(m, n, bool(losses))
        ev["res"] = rows(r)
        drive.poison(r)
        ev["count"] = drive.small_int(bsu.compute_number_of_state_types(m, n, bool(losses)))
    return call({"op": "types", "n": n, "m": m, "losses": losses}, f)


def ev_ntypes(m, n, losses):
    def f(ev):
        ev["count"] = drive.small_int(bsu.compute_number_of_state_types(m, n, losses=bool(losses)))
    return call({"op": "ntypes", "n": n, "m": m, "losses": losses}, f)


def ev_kpart(k, n):
    def f(ev):
        ev["res"] = drive.small_int(bsu.compute_number_of_k_element_integer_partitions_of_n(k, n))
    return call({"op": "kpart", "k": k, "n": n}, f)


def ev_nstates(t, how):
    arg = drive.state(t, how)

    def f(ev):
        ev["res"] = drive.residues(bsu.compute_number_of_states_of_given_type(arg))
    return call({"op": "nstates", "t": list(t)}, f)


def ev_typesum(m, n, losses):
    def f(ev):
        ev["res"] = drive.residues(sum(bsu.compute_number_of_states_of_given_type(t)
                                       for t in bsu.generate_state_types(m, n, bool(losses))))
    return call({"op": "typesum", "n": n, "m": m, "losses": losses}, f)


EVS = {"types": ev_types, "ntypes": ev_ntypes, "kpart": ev_kpart, "nstates": ev_nstates, "typesum": ev_typesum}


def types_session(items):
    return [EVS[i[0]](*i[1:]) for i in items]


@prop("C08")
class C08(Prop):
    bounds = ("types and counts for n<=9, m<=6 (thorough n<=14, m<=7), k-part partitions for k, n <= 20 (thorough 30) and up to n = 900 for small k, "
              "numbers of states of random types up to 60 modes")

    def cases(self, run, rnd, thorough):
        items = []
        N, Mx = (12, 7) if thorough else (8, 6)
        for n in range(0, N + 1):
            for m in range(1, Mx + 1):
                for l in (0, 1):
                    if math.comb(n + m - (0 if l else 1), n) <= (7000 if thorough else 3000):
                        items.append(("types", m, n, l))
                    items.append(("ntypes", m, n, l))
                    items.append(("typesum", m, n, l))
        for n, m in ((12, 10), (15, 8), (10, 14), (20, 6), (18, 25)):
            items += [("typesum", m, n, 0), ("typesum", m, n, 1), ("ntypes", m, n, 0), ("ntypes", m, n, 1)]
        K = 30 if thorough else 20
        items += [("kpart", k, n) for k in range(1, K + 1) for n in range(1, K + 1)]
        for _ in range(600 if thorough else 200):
            m = rnd.randint(1, 60)
            top = rnd.choice([1, 2, 4, 9, 30])
            items.append(("nstates", tuple(rnd.randint(0, top) for _ in range(m)), rnd.choice(["list", "tuple"])))
        for t in mats.states(4, 4):
            items.append(("nstates", t, "tuple"))
        for t in ((5, 4, 3, 2, 1) + (0,) * 20, tuple(range(25)), (1,) * 40, (2, 1) * 15):
            items.append(("nstates", t, "tuple"))
        rnd.shuffle(items)
        out = [Case(types_session, (items[k:k + 40],), "types.%d" % k) for k in range(0, len(items), 40)]
        # small and large arguments in one session, in both orders
        for rep in range(60 if thorough else 20):
            ks = [("kpart", k, n) for k in range(1, 8) for n in range(1, 25)]
            ks += [("kpart", k, rnd.randint(1, {1: 900, 2: 700, 3: 300, 4: 160, 5: 110, 6: 90, 7: 70}.get(k, 60)))
                   for k in list(range(1, 13)) * 4]
            ks += [("kpart", rnd.randint(13, 50), rnd.randint(13, 55)) for _ in range(20)]
            rnd.shuffle(ks)
            if rep % 2:
                ks.sort(key=lambda x: (x[2], x[1]), reverse=rep % 4 == 1)
            out.append(Case(types_session, (ks,), "kpart.%d" % rep))
        return out
