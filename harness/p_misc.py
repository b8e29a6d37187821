"""C19, C21, C22, C23, C26: network, estimates, distances, accuracy, Fourier and phases."""
import cmath
import copy
import math

import numpy as np

import core
import drive
import mats
import p_dist
import rng
from core import Case
from props import Prop, prop
from sampling import err

HOWS = ["list", "tuple", "array", "int64", "nplist"]
BIG = 2 ** 29


def same_array(a, b):
    return int(not np.array_equal(np.asarray(a), np.asarray(b)))


# --------------------------------------------------------------------------- C22
def tvd_session(lists, D, containers):
    evs = []
    f = drive.qcu.count_total_variation_distance
    g = drive.qcu.count_total_variation_distance_dicts

    def wrap(p, c):
        v = [x / D for x in p]
        if c == "array":
            return np.array(v)
        if c == "tuple":
            return tuple(v)
        if c == "dict":
            return {(i, 1): x for i, x in enumerate(v)}
        if c == "sparse":
            return {(i, 1): x for i, x in enumerate(v) if x != 0}
        if c == "rev":
            return dict(reversed([((i, 1), x) for i, x in enumerate(v)]))
        return v

    def dist(p, q, cp, cq, log):
        ev = {"op": "tvd", "p": p, "q": q, "err": "", "N": -1, "dev": 0}
        fun = g if cp in ("dict", "sparse", "rev") else f
        a, b = wrap(p, cp), wrap(q, cq)
        a0, b0 = copy.deepcopy(a), copy.deepcopy(b)
        try:
            r = fun(a, b)
            ev["N"], dev = mats.rat(float(r), 2 * D)
            ev["dev"] = dev
        except Exception as e:
            ev["err"] = err(e)
        if isinstance(a, dict):
            ev["mut"] = int(a != a0 or b != b0 or type(a) is not dict)
        else:
            ev["mut"] = same_array(a, a0) | same_array(b, b0)
        if log:
            evs.append(ev)
        return ev
    fam = ["list", "array", "tuple"] if containers == 0 else ["dict", "sparse", "rev"]
    ps = lists[:3]
    d = {}
    for i in range(3):
        for j in range(3):
            d[i, j] = dist(ps[i], ps[j], fam[(i + j) % 3], fam[(i + 2 * j) % 3], True)["N"]
    for i, j, k in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
        evs.append({"op": "tri", "ab": d[i, j], "ba": d[j, i], "ac": d[i, k], "cb": d[k, j], "aa": d[i, i],
                    "same": int(ps[i] == ps[j]), "D": D, "err": ""})
    return evs


def mdist_session(items):
    evs = []
    for A, B, den, cont in items:
        ev = {"op": "mdist", "A": A, "B": B, "N": -1, "err": ""}
        try:
            a, b = (np.array([[complex(*x) for x in r] for r in X]) / den for X in (A, B))
            if cont == "real":
                a, b = a.real.copy(), b.real.copy()
                ev["A"], ev["B"] = ([[[x[0], 0] for x in r] for r in X] for X in (A, B))
            a0, b0 = a.copy(), b.copy()
            r = float(drive.qcu.count_distance_between_matrices(a, b))
            x = r * r * den * den
            ev["N"] = int(round(x)) if math.isfinite(x) and abs(x) < 2 ** 30 and abs(x - round(x)) < 1e-6 and r >= 0 else -1
            ev["mut"] = same_array(a, a0) | same_array(b, b0)
        except Exception as x:
            ev["err"] = err(x)
        evs.append(ev)
    return evs


def bound_session(args):
    evs = []
    for k, ns, e in args:
        scale, kk = (1e6, k) if k < 2000 else (1e3, k // 1000)
        ev = {"op": "bound", "k": kk, "lnerr": int(round(-math.log(e) * scale)), "X": -1, "err": ""}
        try:
            r = float(drive.qcu.count_tv_distance_error_bound_of_experiment_results(k, ns, e))
            x = r * r * 2 * ns * scale
            ev["X"] = int(round(x)) if math.isfinite(x) and x < 2 ** 31 - 1 and r >= 0 else -1
        except Exception as x:
            ev["err"] = err(x)
        evs.append(ev)
    return evs


def minsamples_session(args):
    evs = []
    for k, e, inv in args:
        q2 = inv * inv
        ev = {"op": "minsamples", "k": k, "lnerr": int(round(-math.log(e) * 1e6)), "q2": q2,
              "slack": q2 * (k + 2), "N": -1, "err": ""}
        try:
            ev["N"] = drive.small_int(drive.qcu.compute_minimal_number_of_samples_for_desired_accuracy(k, e, 1 / inv))
            if not 0 <= ev["N"] < 2140:
                ev["N"] = -1
        except Exception as x:
            ev["err"] = err(x)
        evs.append(ev)
    return evs


def primes_session(ns):
    evs = []
    for n in ns:
        ev = {"op": "primes", "n": str(n), "f": [], "res": drive.residues(n), "err": ""}
        try:
            ev["f"] = [int(x) if int(x) == x and 0 <= x < 2 ** 31 else -1
                       for x in drive.qcu.get_prime_factors(n)]
        except Exception as x:
            ev["err"] = err(x)
        evs.append(ev)
    return evs


def rand_dist(rnd, size, D):
    cuts = sorted(rnd.randint(0, D) for _ in range(size - 1))
    v = [b - a for a, b in zip([0] + cuts, cuts + [D])]
    rnd.shuffle(v)
    return v


@prop("C22")
class C22(Prop):
    bounds = ("random rational distributions of up to 12 outcomes as lists, tuples, arrays and dictionaries with "
              "missing and zero entries (triples); bounds for up to 10^6 outcomes and 10^7 samples; every number "
              "1..300 (thorough 1..3000) plus primes, prime powers and products up to 10^12 factored")

    def cases(self, run, rnd, thorough):
        out = []
        for rep in range(1200 if thorough else 300):
            size = rnd.choice([1, 2, 2, 3, 5, 8, 12])
            D = rnd.choice([1, 2, 6, 10, 60, 997, 10 ** 6])
            ps = [rand_dist(rnd, size, D) for _ in range(3)]
            x = rnd.random()
            if x < .15:
                ps[1] = list(ps[0])
            elif x < .3 and size > 1:       # disjoint supports
                ps[0] = [D] + [0] * (size - 1)
                ps[1] = [0] * (size - 1) + [D]
            elif x < .45 and size > 1:      # small difference
                ps[1] = list(ps[0])
                i = max(range(size), key=lambda i: ps[1][i])
                ps[1][i] -= 1
                ps[1][(i + 1) % size] += 1
            out.append(Case(tvd_session, (ps, D, rep % 2), "tvd.%d" % rep))
        for rep in range(60 if thorough else 20):       # long lists
            size = rnd.choice([100, 257, 1000, 1001, 2048, 4097])
            D = rnd.choice([997, 10 ** 6])
            ps = [rand_dist(rnd, size, D) for _ in range(3)]
            if rep % 2:                             # differing near the end only
                ps[1] = list(ps[0])
                i, j = rnd.sample([i for i in range(size - 40, size)], 2)
                ps[1][i], ps[1][j] = 0, ps[1][i] + ps[1][j]
            out.append(Case(tvd_session, (ps, D, rep // 2 % 2), "tvd.long%d" % rep))
        for rep in range(200 if thorough else 50):
            args = [(rnd.choice([1, 2, 3, 5, 17, 64, 200, 1023, 1500, 5000, 100000, 10 ** 6]),
                     rnd.choice([1, 2, 10, 500, 12345, 10 ** 7]),
                     rnd.choice([.5, .1, .05, .01, .001, 1e-6, 1e-12])) for _ in range(8)]
            out.append(Case(bound_session, (args,), "bound.%d" % rep))
            args = [(rnd.choice([1, 2, 3, 4, 5, 7, 10, 15]), rnd.choice([.5, .1, .05, .01, .003, 1e-4]),
                     rnd.choice([1, 2, 3, 4, 5, 7, 10])) for _ in range(8)]
            args = [a for a in args if (a[0] * .7 + 10) * a[2] ** 2 < 1900]
            out.append(Case(minsamples_session, (args,), "minsamples.%d" % rep))
        for rep in range(60 if thorough else 20):
            items = []
            for _ in range(8):
                m = rnd.choice([1, 2, 3, 4, 7, 9, 12, 17])
                A, B = ([[[rnd.randint(-9, 9), rnd.randint(-9, 9)] for _ in range(m)] for _ in range(m)] for _ in (0, 1))
                if rnd.random() < .2:
                    B = copy.deepcopy(A)
                    B[rnd.randrange(m)][0][1] += rnd.choice([0, 1])
                items.append((A, B, rnd.choice([1, 2, 5, 16]), rnd.choice(["complex", "complex", "real"])))
            out.append(Case(mdist_session, (items,), "mdist.%d" % rep))
        top = 3000 if thorough else 300
        for lo in range(1, top, 50):
            out.append(Case(primes_session, (list(range(lo, lo + 50)),), "primes.%d" % lo))
        ps = [2, 3, 5, 7, 11, 13, 97, 101, 997, 1009, 7919, 32749, 46337, 46339, 65537, 99991]
        for rep in range(100 if thorough else 30):
            ns = []
            for _ in range(12):
                n = 1
                while True:
                    p = rnd.choice(ps) ** rnd.choice([1, 1, 2, 3])
                    if n * p > 10 ** 10:
                        break
                    n *= p
                    if rnd.random() < .3:
                        break
                ns.append(n)
            ns.append(rnd.choice(ps) ** 2)
            big = rnd.sample([100003, 100019, 131071, 262147, 524287, 999983, 1000003], 2)
            ns += [big[0] * big[1], big[0] * rnd.choice(ps[:10]), rnd.choice(big) ** 2]
            ns.append(rnd.choice([2 ** 31 - 1, 10 ** 9 + 7, 998244353]))
            out.append(Case(primes_session, (ns,), "primes.big%d" % rep))
        return out


# --------------------------------------------------------------------------- C26
def grid(z, n, mod, off=0.0):
    """(exponent of the n-th root of unity, deviation in 1e-12) of z/mod."""
    z = complex(z) * cmath.exp(-2j * math.pi * off / n if n else 0)
    if not (math.isfinite(z.real) and math.isfinite(z.imag)):
        return -5, BIG
    e = int(round(cmath.phase(z) * n / (2 * math.pi))) % n if n else 0
    return e, min(BIG, int(abs(z - mod * cmath.exp(2j * math.pi * e / n)) * 1e12))


def qft_session(pairs):
    evs = []
    for m, al in pairs:
        ev = {"op": "qft", "m": m, "all": m if al is None else al, "E": [], "dev": 0, "err": ""}
        try:
            A = drive.qcu.compute_qft_matrix(m) if al is None else drive.bsu.generate_qft_matrix_for_first_m_modes(m, al)
            k = ev["all"]
            A = np.asarray(A)
            if A.size != k * k or (k and A.shape != (k, k)):
                ev["E"] = [[-7]]
            else:
                for i in range(k):
                    row = []
                    for j in range(k):
                        z = complex(A[i, j])
                        if i < m and j < m:
                            e, dev = grid(z, m, 1 / math.sqrt(m))
                        elif abs(z) < 1e-12:
                            e, dev = -1, 0
                        else:
                            e, dev = grid(z, 1, 1)
                        row.append(e)
                        ev["dev"] = max(ev["dev"], dev)
                    ev["E"].append(row)
            drive.poison(A)
        except Exception as x:
            ev["err"] = err(x)
        evs.append(ev)
    return evs


def phase_diag(A, m, al, q):
    A = np.asarray(A)
    if A.shape != (al, al):
        return None
    off = int(np.abs(A - np.diag(np.diag(A))).max() > 0) if al else 0
    return np.diag(A), off


def phases_session(m, al, q, calls, ns, seed):
    """The law of the phases of `calls` consecutive calls; statistics as a fall-back."""
    gen = drive.bsu.generate_random_phases_matrix_for_first_m_modes
    offs = {}       # a uniform phase is uniform on every rotated grid

    def fn():
        lead, rest, off, dev = [], [], 0, 0
        for _ in range(calls):
            R = gen(m, al)
            A = np.array(R)
            drive.poison(R)
            if A.shape != (al, al):
                return ((-9,), 1, BIG)
            off |= int(np.abs(A - np.diag(np.diag(A))).max() > 0)
            for j in range(al):
                z = complex(A[j, j])
                if j < m and (j, len(lead)) not in offs:
                    offs[j, len(lead)] = cmath.phase(z) * q / (2 * math.pi) % 1
                e, d = grid(z, q, 1, offs.get((j, len(lead)), 0) if j < m else 0)
                if j < m:
                    lead.append(e)
                    dev = max(dev, d)
                else:
                    rest.append(-1 if abs(z - 1) < 1e-12 else e)
        return (tuple(lead + rest), off, dev)
    ev = {"op": "phaselaw", "m": m * calls, "all": al * calls, "q": q, "D": q ** (m * calls), "law": [],
          "offdiag": 0, "dev": 0, "err": ""}
    try:
        law, _ = rng.enumerate_law(fn, q=q, max_paths=5000)
        for (d, off, dev), p in sorted(law.items()):
            N, dd = mats.rat(p, ev["D"])
            ev["law"].append([list(d), N])
            ev["offdiag"] |= off
            ev["dev"] = max(ev["dev"], dev, dd)
        return [ev]
    except rng.Opaque as x:
        fb = str(x)[:80]
    except Exception as x:                # confirmed, or not, by the real generators
        fb = "exception " + err(x)
    rng.seed_real(seed)
    cnt, off, dev, rest = {}, 0, 0, 1
    ev = {"op": "phasestat", "m": m * calls, "ns": ns, "offdiag": 0, "dev": 0, "rest": 1, "err": "", "fallback": fb,
          "r": {"mode": "stat"}}
    try:
        for _ in range(ns):
            key = []
            for _ in range(calls):
                A = np.asarray(gen(m, al))
                if A.shape != (al, al):
                    rest = 0
                    break
                off |= int(np.abs(A - np.diag(np.diag(A))).max() > 0)
                d = np.diag(A)
                dev = max(dev, int(np.abs(np.abs(d) - 1).max() * 1e12) if al else 0)
                rest &= int(np.abs(d[m:] - 1).max() < 1e-12) if al > m else 1
                key += [int((cmath.phase(complex(z)) / (2 * math.pi)) % 1 * 4) % 4 for z in d[:m]]
            cnt[tuple(key)] = cnt.get(tuple(key), 0) + 1
        ev.update(offdiag=off, dev=min(dev, BIG), rest=rest, cnt=[[list(k), c] for k, c in sorted(cnt.items())])
    except Exception as x:
        ev["err"] = err(x)
    return [ev]


@prop("C26")
class C26(Prop):
    bounds = ("Fourier matrices up to 24 modes (thorough 64) and of 33, 64, 100, 129, 200, 257 modes, embeddings of every m <= all <= 12 and some of 150 and 215; joint law of the "
              "phases of up to three consecutive calls on grids of 2..5 values")

    def cases(self, run, rnd, thorough):
        out = []
        sizes = list(range(0, 65 if thorough else 25))
        for i in range(0, len(sizes), 5):
            out.append(Case(qft_session, ([(n, None) for n in sizes[i:i + 5] * 2],), "qft.%d" % i))
        for n in (33, 64, 100, 129, 200, 257) + ((300, 365) if thorough else ()):
            out.append(Case(qft_session, ([(n, None)],), "qft.big%d" % n))
        out.append(Case(qft_session, ([(rnd.randint(183, 210), 215), (2, 150), (149, 150)],), "embed.big"))
        for al in range(1, 17 if thorough else 13):
            out.append(Case(qft_session, ([(m, al) for m in list(range(0, al + 1)) * (2 if al < 9 else 1)],), "embed.%d" % al))
        mixed = [(rnd.randint(0, 8), rnd.choice([None, 8, 9])) for _ in range(30)]
        out.append(Case(qft_session, (mixed,), "qft.mixed"))
        for m in range(0, 6):
            for al in range(max(m, 1), 7):
                for q in (2, 3, 4, 5):
                    for calls in (1, 2, 3):
                        if q ** (m * calls) <= (2000 if thorough else 700):
                            out.append(Case(phases_session, (m, al, q, calls, 20000, rnd.randrange(10 ** 6)),
                                            "phases.%d.%d.%d.%d" % (m, al, q, calls)))
        return out


# --------------------------------------------------------------------------- C19
def expand_session(mids, conts):
    evs = []
    for mid, cont in zip(mids, conts):
        M = core.ZOO[mid]
        m = M.m
        A = M.np(cont)
        A0 = copy.deepcopy(A)
        ev = {"op": "expand", "mat": mid, "W": [], "block": [], "dev": 0, "udev": BIG, "err": ""}
        try:
            W = np.asarray(drive.bsu.prepare_interferometer_matrix_in_expanded_space(A))
            if W.ndim == 2:
                u = float(np.abs(W.conj().T @ W - np.eye(W.shape[1])).max())
                ev["udev"] = int(min(u, 1e-4) * 1e12) if math.isfinite(u) else BIG
                ev["W"] = [[[int(round(z.real * 1e4)), int(round(z.imag * 1e4))] if abs(z) < 10 else [90000, 90000]
                            for z in (complex(x) for x in row)] for row in W]
                blk = []
                for i in range(min(m, W.shape[0])):
                    row = []
                    for j in range(min(m, W.shape[1])):
                        a, b, d = drive.gauss(W[i, j], math.sqrt(M.d[j]))
                        row.append([a, b])
                        ev["dev"] = max(ev["dev"], d)
                    blk.append(row)
                ev["block"] = blk
                drive.poison(W)
        except Exception as x:
            ev["err"] = err(x)
        ev["mut"] = same_array(A, A0)
        evs.append(ev)
        ev = {"op": "transm", "mat": mid, "count": -1, "N": [], "D": [], "dev": 0, "err": ""}
        L = mats.lcm(*M.d)
        try:
            t = drive.bsu.get_modes_transmissivity_values_from_matrix(A)
            r, t = t, [float(x) for x in t]
            drive.poison(r)
            ev["count"] = len(t)
            x = 1
            while x <= (m if m < 12 else 2) and L ** x * m <= mats.LIMIT:
                N, d = mats.rat(sum(v ** x for v in t), L ** x)
                ev["N"].append(N)
                ev["D"].append(L ** x)
                ev["dev"] = max(ev["dev"], d)
                x += 1
        except Exception as x:
            ev["err"] = err(x)
        ev["mut"] = same_array(A, A0)
        evs.append(ev)
    return evs


def evolve_session(mid, kind, vs, hows, cont):
    M = core.ZOO[mid]
    A = M.np(cont)
    A0 = copy.deepcopy(A)
    rt = [math.isqrt(d) for d in M.d]
    L = mats.lcm(*rt)
    evs = []
    try:
        cls = drive.LosslessNetworkSimulationStrategy if kind == "lossless" else drive.LossyNetworkSimulationStrategy
        net = cls(A)
    except Exception as x:
        return [{"op": "evolve", "mat": mid, "err": err(x)}]
    for v, how in zip(vs, hows):
        ev = {"op": "evolve", "mat": mid, "v": [list(x) for x in v], "rt": rt, "L": L, "res": [], "dev": 0, "err": ""}
        if how == "int" and all(b == 0 for _, b in v):
            arg = [a for a, _ in v]
        elif how == "tuple":
            arg = tuple(complex(a, b) for a, b in v)
        elif how == "array":
            arg = np.array([complex(a, b) for a, b in v])
        elif how == "intarray" and all(b == 0 for _, b in v):
            arg = np.array([a for a, _ in v])
        else:
            arg = [complex(a, b) for a, b in v]
        before = copy.deepcopy(arg)
        try:
            got = net.simulate(arg)
            r = np.array(got)
            drive.poison(got)
            if r.shape != (M.m,):
                ev["res"] = [[BIG, BIG]]
            else:
                for z in r:
                    a, b, d = drive.gauss(z, L)
                    ev["res"].append([a, b])
                    ev["dev"] = max(ev["dev"], d)
        except Exception as x:
            ev["err"] = err(x)
        ev["mut"] = same_array(arg, before) | same_array(A, A0)
        evs.append(ev)
    return evs


def squared(M):
    return all(math.isqrt(d) ** 2 == d for d in M.d)


@prop("C19")
class C19(Prop):
    bounds = ("exact sub-unitary matrices of 1..6 modes with losses before and/or after a unitary (including "
              "total loss, equal and degenerate singular values, permutations and the identity); Gaussian-integer "
              "state vectors")

    def cases(self, run, rnd, thorough):
        out = []
        for rep in range(500 if thorough else 120):
            ms, cs = [], []
            for _ in range(4):
                m = rnd.choice([1, 2, 2, 3, 3, 4, 5, 6])
                x = rnd.random()
                if x < .5:
                    M = mats.lossy(m, rnd, 3000)
                elif x < .62:
                    M = mats.weak(m, rnd)
                elif x < .75:
                    M = mats.unitary(m, rnd)
                elif x < .85:
                    M = mats.col_loss(mats.perm_mat(rnd.sample(range(m), m)), [rnd.choice(mats.AMPS) for _ in range(m)])
                else:
                    M = mats.col_loss(mats.unitary(m, rnd), [rnd.choice(mats.AMPS)] * m)
                ms.append(run.zoo.id(M))
                cs.append(rnd.choice(["array", "array", "list", "fortran", "real"]))
            out.append(Case(expand_session, (ms, cs), "expand.%d" % rep))
        for rep in range(100 if thorough else 25):         # nearly equal matrices in one session
            m = rnd.choice([1, 2, 3, 4])
            M = mats.simple(m, rnd) if rep % 2 else mats.unitary(m, rnd, 25)
            ms = [M] + [mats.near(M, rnd, k) for k in rnd.sample([10, 100, 300, 1000, 3000, 7000], 3)]
            rnd.shuffle(ms)
            out.append(Case(expand_session, ([run.zoo.id(x) for x in ms], ["array"] * 4), "expand.near%d" % rep))
        for rep in range(3 if thorough else 1):           # a large network changed in the middle
            m = 33
            P = mats.perm_mat(rnd.sample(range(m), m))
            amps = [rnd.choice(mats.AMPS[:4]) for _ in range(m)]
            am2 = list(amps)
            am2[m // 2] = (0, 1)
            out.append(Case(expand_session, ([run.zoo.id(mats.col_loss(P, a)) for a in (amps, am2)],
                                             ["array"] * 2), "expand.large%d" % rep))
        made = 0
        while made < (600 if thorough else 160):
            m = rnd.choice([1, 2, 3, 3, 4, 5])
            kind = rnd.choice(["lossless", "lossy"])
            x = rnd.random()
            if made % 6 == 0:                    # a real matrix: permutations with signs and losses, rotations
                m = rnd.choice([1, 2, 2, 3])
                M = mats.col_loss(mats.perm_mat(rnd.sample(range(m), m)), [rnd.choice(mats.AMPS[:4]) for _ in range(m)])
                if m == 2:
                    a, b = rnd.choice([(3, 4), (4, 3), (5, 12), (-3, 4)])
                    M = mats.from_complex([[a, b], [-b, a]], [a * a + b * b] * 2)
            else:
                M = (mats.lossy(m, rnd, 3000) if x < .45 else mats.weak(m, rnd) if x < .6 else mats.unitary(m, rnd) if x < .9 or kind == "lossy"
                     else mats.general(m, rnd, maxd=1))
            if not squared(M):
                continue
            vs = []
            for _ in range(4):
                im = rnd.random() < .6
                vs.append([(rnd.randint(-3, 3), rnd.randint(-3, 3) if im else 0) for _ in range(m)])
            vs[-1] = list(vs[0])
            args = (run.zoo.id(M), kind, vs, [rnd.choice(["int", "tuple", "array", "list", "intarray"]) for _ in vs],
                    rnd.choice(["array", "array", "list"]))
            if all(b == 0 for row in M.g for _, b in row):
                args = args[:4] + (rnd.choice(["real", "real", "array", "list"]),)
            M2 = mats.unitary(m, rnd)
            if made % 2 and squared(M2):         # another network in the same process
                out.append(Case(core.chain, ((evolve_session, (run.zoo.id(M2),) + args[1:]), (evolve_session, args)),
                                "evolve.%ds" % made))
            else:
                out.append(Case(evolve_session, args, "evolve.%d" % made))
            made += 1
        return out


# --------------------------------------------------------------------------- C23
def acc_session(mid, S, eta, perm, how, script, seed):
    M = core.ZOO[mid]
    st = drive.strategy("gccu", M, M.m, perm, eta)
    n = sum(S)
    D = mats.den_sectors(M, S, eta[1])
    rng.seed_real(seed)
    evs = []
    for step in script:
        if step[0] == "sim":
            try:
                st.simulate(drive.state(S if step[1] else tuple(reversed(S)), how), 2)
            except Exception as x:
                evs.append({"op": "case", "err": err(x)})
            continue
        w, acc = step
        arg = drive.state(S, how)
        before = copy.deepcopy(arg)
        ev = {"op": "acc", "mat": mid, "S": list(S), "eta": list(eta), "acc": list(acc), "weighted": int(w == "w"),
              "N": [], "D": D, "dev": 0, "err": ""}
        try:
            f = st.compute_distribution_up_to_accuracy if w == "w" else st.compute_unweighted_distribution_up_to_accuracy
            got = f(arg, acc[0] / acc[1])
            vals = list(got)
            drive.poison(got)
            for p in vals:
                N, d = mats.rat(float(p), D)
                ev["N"].append(N)
                ev["dev"] = max(ev["dev"], d)
        except Exception as x:
            ev["err"] = err(x)
        ev["mut"] = int(list(arg) != list(before))
        evs.append(ev)
    return evs


@prop("C23")
class C23(Prop):
    bounds = ("exact unitaries m<=4, n<=3 (sparse ones m<=9, n<=6), eta in {0,1/1000,1/4,1/3,1/2,2/3,3/4,999/1000,1}, accuracies 0, 1/4, 1/2, 9/10, 99/100, 1, "
              "several runs per object and seeds")
    assumptions = ("termination is observed as completion within 100 s of processor time",)

    def cases(self, run, rnd, thorough):
        out = []
        tries = 0
        while len(out) < (3000 if thorough else 600) and tries < 20000:
            tries += 1
            m = rnd.choice([1, 2, 2, 3, 3, 4])
            n = rnd.choice([0, 1, 2, 2, 3])
            S = rnd.choice(mats.states(n, m))
            eta = rnd.choice(p_dist.ETAS)
            M = mats.unitary(m, rnd) if rnd.random() < .85 else mats.perm_mat(rnd.sample(range(m), m))
            if rnd.random() < .2:
                m, n = rnd.choice([(6, 2), (8, 1), (9, 1), (5, 2), (2, 5), (3, 4), (2, 6), (3, 5)])
                M = mats.sparse(m, rnd, rnd.choice([0, 1, 1, 2]))
                S = mats.large_state(rnd, m, n, M)
                if mats.den_exact(M, S) * eta[1] ** n > 4000:             # found quickly
                    continue
            rare = min(x for x in (eta[0], eta[1] - eta[0]) if x > 0)
            if eta[1] ** n > 4000 * rare ** n:           # an exploration which takes millions of rounds
                continue
            if mats.den_sectors(M, S, eta[1]) > 4 * 10 ** 6:      # every probability is well above 1e-8
                continue
            script = []
            for _ in range(rnd.choice([1, 2, 3])):
                acc = rnd.choice([(0, 1), (1, 4), (1, 2), (9, 10), (99, 100), (1, 1), (1, 1), (1, 1)])
                w = "w" if rnd.random() < .6 or n == 0 or eta[0] == 0 else "u"
                script.append((w, acc))
                if rnd.random() < .2 and n > 0:
                    script.append(("sim", rnd.random() < .5))
            args = (run.zoo.id(M), S, eta, rnd.choice(["ryser", "chinhuh", "glynn", "classic", "ryser/none", "glynn/left"]),
                    rnd.choice(HOWS), script, rnd.randrange(10 ** 6))
            tag = "acc.%d" % len(out)
            M2 = mats.unitary(m, rnd) if m < 5 and rnd.random() < .5 else mats.perm_mat(rnd.sample(range(m), m))
            if rnd.random() < .4 and mats.den_sectors(M2, S, eta[1]) <= 4 * 10 ** 6:
                out.append(Case(core.chain, ((acc_session, (run.zoo.id(M2),) + args[1:]), (acc_session, args)), tag + "s"))
            else:
                out.append(Case(acc_session, args, tag))
        for rep in range(30 if thorough else 6):          # an outcome that is met once in tens of thousands of rounds
            m = rnd.choice([1, 2, 2, 3])
            S = rnd.choice(mats.states(3, m))
            eta = rnd.choice([(1, 32), (31, 32), (1, 32), (1, 24)])
            out.append(Case(acc_session, (run.zoo.id(mats.perm_mat(rnd.sample(range(m), m))), S, eta, "ryser",
                                          rnd.choice(HOWS), [("w" if rep % 4 else "u", (1, 1))], rnd.randrange(10 ** 6)),
                            "acc.rare%d" % rep, cpu=250))
        for rep in range(40 if thorough else 10):         # accuracies which still need the rare outcomes
            m = rnd.choice([1, 2, 2, 3])
            S = rnd.choice(mats.states(1, m))
            eta = rnd.choice([(1, 1000), (999, 1000), (1, 500), (499, 500)])
            acc = rnd.choice([(9999, 10000), (9995, 10000), (999, 1000)])
            out.append(Case(acc_session, (run.zoo.id(mats.perm_mat(rnd.sample(range(m), m))), S, eta, "ryser",
                                          rnd.choice(HOWS), [("w", acc)], rnd.randrange(10 ** 6)),
                            "acc.almost%d" % rep, cpu=250))
        return out


# --------------------------------------------------------------------------- C21
class Scripted(drive.SimulationStrategyInterface):
    """A strategy with known samples, recording what it was asked."""

    def __init__(self, pool, seed, kind):
        self.pool, self.rnd, self.kind, self.log = pool, np.random.RandomState(seed), kind, []

    def simulate(self, input_state, samples_number=1):
        k = int(samples_number)
        got = [self.pool[int(i)] for i in self.rnd.randint(0, len(self.pool), k)]
        if len(self.log) < 30000:
            self.log.append(([int(x) for x in input_state], k, got))
        if self.kind == "array":
            return [np.array(x) for x in got]
        if self.kind == "float":
            return [tuple(float(y) for y in x) for x in got]
        return [tuple(x) for x in got]


def est_session(script, cfgs, outs, seed, ns0, out0, sk):
    """cfgs: list of (S, left); outs: lists of outcomes."""
    M = {len(S): mats.identity(len(S)) for S, _ in cfgs}
    cur = {"cfg": 0, "ns": ns0, "outs": out0}
    strat = Scripted(outs[0][1], seed, sk[0])

    def conf(i):
        S, left = cfgs[i]
        return drive.config(M[len(S)], S, left=left, how=["list", "tuple", "array"][i % 3])

    def wrap(i):
        o = outs[i][0]
        return [list(x) for x in o] if i % 3 == 0 else [tuple(x) for x in o] if i % 3 == 1 else [np.array(x) for x in o]
    kw = {}
    if ns0 is not None:
        kw["samples_number"] = ns0
    else:
        cur["ns"] = 5000
    if out0 is not None:
        kw["outcomes"] = wrap(out0)
    try:
        calc = drive.BSSampleBasedDistributionCalculator(conf(0), strat, **kw)
    except Exception as x:
        return [{"op": "est", "err": err(x)}]
    evs = []
    for step in script:
        try:
            if step[0] == "ns":
                calc.samples_number = cur["ns"] = step[1]
                continue
            if step[0] == "cfg":
                calc.configuration = conf(step[1])
                cur["cfg"] = step[1]
                continue
            if step[0] == "outs":
                calc.outcomes = wrap(step[1])
                cur["outs"] = step[1]
                continue
            if step[0] == "strat":
                strat = Scripted(outs[step[1]][1], seed + 1, sk[1])
                calc.strategy = strat
                continue
        except Exception as x:
            evs.append({"op": "est", "err": err(x)})
            continue
        S, left = cfgs[cur["cfg"]]
        ev = {"op": "est", "asked": -1, "ns": cur["ns"], "input": [], "S": list(S), "N": [], "outs": [], "samples": [],
              "reported": 1, "given": [], "left": -1, "dev": 0, "err": ""}
        strat.log.clear()
        try:
            if step[0] == "dist":
                res = calc.calculate_distribution()
                ev["left"] = left if cur["outs"] is None else -1
                ev["outs"] = [list(drive.canon(x)) for x in calc.get_outcomes_in_proper_order()]
            elif step[0] == "approx":
                ev["ns"] = step[1]
                res = calc.calculate_approximate_distribution(step[1])
                ev["left"] = left if cur["outs"] is None else -1
                ev["outs"] = [list(drive.canon(x)) for x in calc.get_outcomes_in_proper_order()]
            else:
                res = calc.calculate_probabilities_of_outcomes(wrap(step[1]))
                cur["outs"] = step[1]
                ev["reported"] = 0
                ev["given"] = [list(x) for x in outs[step[1]][0]]
                ev["outs"] = ev["given"]
            if strat.log:                  # in one or several calls
                ins = [x[0] for x in strat.log if x[1] > 0] or [strat.log[0][0]]
                ev["input"] = ins[0] if all(x == ins[0] for x in ins) else [-1]
                ev["asked"] = sum(x[1] for x in strat.log)
                ev["samples"] = [list(x) for y in strat.log for x in y[2]]
            if step[0] in ("dist", "approx") and cur["outs"] is not None:
                ev["reported"] = 0
                ev["given"] = [list(x) for x in outs[cur["outs"]][0]]
            for p in res:
                N, d = mats.rat(float(p), max(1, ev["ns"]))
                ev["N"].append(N)
                ev["dev"] = max(ev["dev"], d)
        except Exception as x:
            ev["err"] = err(x)
        evs.append(ev)
    return evs


def aligned_session(kind, rec, perm, how):
    """calculate_distribution() against calculate_probabilities_of_outcomes(reported)."""
    ev = {"op": "sameas", "a": [], "b": [1], "err": ""}
    try:
        if kind == "separable":
            ev["kf"] = "separable-calculator"
            M = core.ZOO[rec["mat"]]
            cfg = drive.config(M, rec["S"], how=how, level=1)
            obj = drive.BSApproximatedLossyDistributionCalculator(
                cfg, drive.perm_calc(perm, cfg.interferometer_matrix, M.m, rec["S"]))
        else:
            obj, cfg = p_dist.build(rec, perm, how, "array")
        outs = obj.get_outcomes_in_proper_order()
        ev["a"] = [int(round(float(p) * 1e8)) for p in obj.calculate_distribution()]
        ev["b"] = [int(round(float(p) * 1e8)) for p in obj.calculate_probabilities_of_outcomes(outs)]
        if len(outs) != len(ev["a"]):
            ev["b"].append(-1)
    except Exception as x:
        ev["err"] = err(x)
    return [ev]


@prop("C21")
class C21(Prop):
    bounds = ("scripted strategies with known samples (inside and outside the outcome list), 1..200 samples and the "
              "default 5000, configured and default outcomes, histories of re-configuration; alignment of the exact "
              "calculators on m<=4, n<=3")
    assumptions = ("the outcome list given by the user has no duplicates",)

    def cases(self, run, rnd, thorough):
        out = []
        for rep in range(1200 if thorough else 300):
            m = rnd.choice([1, 2, 2, 3, 3, 4])
            cfgs = []
            for _ in range(3):
                S = rnd.choice(mats.states(rnd.randint(0, 3), m))
                cfgs.append((S, rnd.randint(0, sum(S))))
            outs = []
            for i in range(3):
                space = mats.lossy_states(3, m)
                if rep % 5 == 4:                 # many particles in a mode
                    space = [tuple(rnd.choice([0, 1, 1, 2, 10, 11, 11, 12, 21, 100, 111]) for _ in range(m)) for _ in range(12)]
                    space += [(1, 11) + (0,) * (m - 2), (1, 0, 1)[:m] + (0,) * (m - 3), (0, 10, 1)[:m] + (0,) * (m - 3)] if m > 1 else []
                    space = list(dict.fromkeys(space + [x[::-1] for x in space]))
                pool = rnd.sample(space, min(len(space), rnd.randint(1, 6)))
                o = rnd.sample(space, rnd.randint(1, len(space)))
                if rep % 5 == 4 and rnd.random() < .7:
                    pool, o = rnd.sample(space, min(len(space), 12)), rnd.sample(space, len(space))
                elif rnd.random() < .6:
                    o = list(dict.fromkeys(pool + o[:3]))
                    rnd.shuffle(o)
                outs.append((o, pool))
            script = []
            for _ in range(rnd.randint(2, 6)):
                x = rnd.random()
                script.append(rnd.choice([("ns", rnd.choice([1, 2, 7, 50, 200, 333, 1001, 1500, 2047])), ("cfg", rnd.randrange(3)),
                                          ("outs", rnd.randrange(3)), ("strat", rnd.randrange(3))])
                              if x < .4 else
                              rnd.choice([("dist",), ("dist",), ("approx", rnd.choice([1, 3, 10, 100, 257, 1025, 1999])),
                                          ("probs", rnd.randrange(3))]))
            script.append(("dist",))
            args = (script, cfgs, outs, rnd.randrange(10 ** 6), rnd.choice([1, 2, 10, 64, 100]) if rep % 16 else None,
                    rnd.choice([None, None, 0, 1, 2]), [rnd.choice(["tuple", "array", "float"]) for _ in range(2)])
            if rep % 3 == 0:                     # a second calculator in the same process
                sc2 = rnd.sample(script, len(script)) + [("dist",)]
                other = (sc2, cfgs[::-1], rnd.sample(outs, 3), args[3] + 5) + args[4:]
                out.append(Case(core.chain, ((est_session, other), (est_session, args)), "est.%ds" % rep))
            else:
                out.append(Case(est_session, args, "est.%d" % rep))
        made = 0
        while made < (200 if thorough else 50):
            kind = rnd.choice(["dfixed", "duni"])
            m, n = rnd.choice([1, 2, 3, 3, 4]), rnd.choice([0, 1, 2, 3])
            M = mats.unitary(m, rnd)
            S = rnd.choice(mats.states(n, m))
            rec = {"kind": kind, "mat": run.zoo.id(M), "S": list(S), "l": rnd.randint(0, n) if kind == "dfixed" else n,
                   "eta": list(rnd.choice(p_dist.ETAS)) if kind == "duni" else [1, 1], "weightless": False}
            out.append(Case(aligned_session, (kind, rec, rnd.choice(list(drive.PERMS)), rnd.choice(HOWS)),
                            "aligned.%d" % made))
            made += 1
        rec = {"kind": "separable", "mat": run.zoo.id(mats.bs()), "S": [1, 1], "l": 2, "eta": [1, 1], "weightless": False}
        out.append(Case(aligned_session, ("separable", rec, "ryser", "list"), "separable"))
        return out
